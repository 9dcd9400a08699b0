# Databases (database/database.go) and the keys of their dicts (database/dict.go).
package database
group none

func NewDatabase(id) (db)
  ensures db != nil && fresh(db) && db.ID == id
  ensures db.Dict != nil && fresh(db.Dict) && db.Dict.DictType is *DictType && db.Dict.n == 0 && forall k any {db.Dict.has[k]} :: !db.Dict.has[k]
  ensures db.Expire != nil && fresh(db.Expire) && db.Expire != db.Dict && db.Expire.DictType is *DictType && db.Expire.n == 0 && forall k any {db.Expire.has[k]} :: !db.Expire.has[k]
