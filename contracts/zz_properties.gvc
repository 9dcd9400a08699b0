# Which functions each property of the server rests on.
package server
group none

funcset getters: server.getHashIfExist, server.getQuickListIfExist, server.getSetIfExist, server.getHash, server.getQuickList, server.getSet
funcset expiry: server.deleteExpiredKey, server.expireIfNeeded, server.keyExists, server.databasesCron
funcset keyCommands: server.setCommand, server.setExCommand, server.getCommand, server.randomGetCommand, server.expireCommand, server.expireAtCommand, server.ttlCommand, server.delCommand
funcset writeCommands: server.setCommand, server.setExCommand, server.expireCommand, server.expireAtCommand, server.delCommand, server.hSetCommand, server.hDelCommand,
  server.lPushCommand, server.rPushCommand, server.lPopCommand, server.rPopCommand, server.sAddCommand, server.sRemCommand, server.sPopCommand
funcset readCommands: server.getCommand, server.ttlCommand, server.randomGetCommand, server.hGetCommand, server.hExistsCommand, server.hLenCommand, server.hKeysCommand,
  server.lLenCommand, server.lIndexCommand, server.lRangeCommand, server.sCardCommand, server.sIsMemberCommand, server.sMembersCommand, server.sDiffCommand, server.sInterCommand, server.sUnionCommand
funcset otherCommands: server.pingCommand, server.selectCommand, server.authCommand
funcset executing: server.lookupCommand, server.call, server.processCommand

funcset parsing: server.Client.getCRLFIndexFromQueryBuffer, server.Client.getNumFromQueryBuffer, server.Client.moveToNextLineInQueryBuffer, server.Client.reset,
  server.processInlineBuffer, server.processBulkBuffer, server.processMultiBulkBuffer, server.processInputBuffer, server.readQueryFromClient, socket.FD.Read, server.NewClient

property C07: parsing
property C08: parsing, server.acceptTCPHandler, server.Client.free
property C08: getters, expiry, writeCommands, readCommands, otherCommands, executing
property C09: writeCommands, readCommands, otherCommands, executing
property C10: executing, server.authCommand, server.NewClient, server.acceptTCPHandler
property C11: server.selectCommand, server.NewClient, getters, expiry, keyCommands, executing
property C12: getters, expiry, keyCommands
property C13: getters, expiry, writeCommands, readCommands, otherCommands, executing
property C14: expiry, writeCommands, executing
property C21: getters, expiry, writeCommands, readCommands, otherCommands
property C22: server.flushAppendOnlyFile, server.aofFileSync, server.beforeSleepProc$1, server.aofFileSync$1, server.call, server.feedAppendOnlyFile
