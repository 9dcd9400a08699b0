# github.com/pkg/errors.
package errors
group none

# errCause(e): the error at the bottom of a chain of wrapped ones; isErr(e, x): x is in the chain of e.
fun errCause(any) any
fun isErr(any, any) bool
fun errText(any) string
axiom noErr: forall e, x any {isErr(e, x)} :: e is nil ==> !isErr(e, x)

func New(message) (e)
  trusted "github.com/pkg/errors: a new error"
  ensures !(e is nil) && errCause(e) == e && errText(e) == message
  ensures forall x any {isErr(e, x)} :: isErr(e, x) <==> x == e

func Is(err, target) (r)
  noalloc
  trusted "github.com/pkg/errors: whether the target is in the chain"
  ensures r <==> isErr(err, target)
  ensures err == target ==> r

func Wrap(err, message) (e)
  trusted "github.com/pkg/errors: nil for nil, an error with the same cause otherwise"
  ensures e is nil <==> err is nil
  ensures !(err is nil) ==> errCause(e) == errCause(err)

func Cause(err) (e)
  noalloc
  trusted "github.com/pkg/errors: the error at the bottom of the chain"
  ensures e == errCause(err)

functype error.Error(e) (s)
  noalloc
  trusted "an error has a text, and giving it changes nothing"

package server

func log.Error(msg, fields)
  trusted "log: writes a line"
