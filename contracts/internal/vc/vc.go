// Package vc is the contract language of govc. Its functions have no executable meaning: contract functions
// are never run, they are evaluated symbolically.
package vc

// Visited is the set of keys a map loop has already produced.
type Visited[K comparable] chan K

// Has tells whether the loop has produced k.
func (v Visited[K]) Has(k K) bool { panic("vc") }

// Done is the number of elements an index loop has finished.
type Done int

// Requires states a precondition.
func Requires(name string, cond bool) { panic("vc") }

// Ensure states a postcondition.
func Ensure(name string, cond bool) { panic("vc") }

// Produce states a fact callers may use that is true by definition of a relation (homomorphism step).
func Produce(cond bool) { panic("vc") }

// Details separates the part of a postcondition that recursive callers use (before) from the rest (after).
func Details() { panic("vc") }

// Invariant states a loop invariant.
func Invariant(name string, cond bool) { panic("vc") }

// Loop attaches invariants to a loop; spec is a function literal over the loop's variables.
func Loop(key string, spec interface{}) { panic("vc") }

// Modifies lists the objects that may change: pointers, maps, slices.
func Modifies(locs ...interface{}) { panic("vc") }

// ModifiesWhere lists a set of objects that may change: func(p *T) bool or func(m map[K]V) bool.
func ModifiesWhere(set interface{}) { panic("vc") }

// Old is the value of an expression before the call.
func Old[T any](f func() T) T { panic("vc") }

// SplitOn makes the verifier prove obligations by cases of a value (each listed value, and all others).
func SplitOn(v string, vals ...string) { panic("vc") }

// ModifiesAnything drops the frame condition.
func ModifiesAnything() { panic("vc") }

// Is requires the dynamic type of v to be T.
func Is[T any](v interface{}) { panic("vc") }

// Dyn is the value of dynamic type T in v.
func Dyn[T any](v interface{}) T { panic("vc") }

// TypeIs tells whether v holds a T.
func TypeIs[T any](v interface{}) bool { panic("vc") }

// Assume adds an assumption (models of external code only).
func Assume(cond bool) { panic("vc") }

// Define states the (recursive) definition of an uninterpreted function, for the verification of one function only.
func Define(cond bool) { panic("vc") }

// Any is an arbitrary value.
func Any[T any]() T { panic("vc") }

// AnyFresh is an arbitrary value whose references point to new objects.
func AnyFresh[T any]() T { panic("vc") }

// Implies is a => b.
func Implies(a, b bool) bool { panic("vc") }

// Iff is a <=> b.
func Iff(a, b bool) bool { panic("vc") }

// If is the conditional value.
func If[T any](c bool, a, b T) T { panic("vc") }

// Eq is equality of values, also of slices and functions (same object).
func Eq[T any](a, b T) bool { panic("vc") }

// Fresh tells that the object did not exist before the call.
func Fresh(v interface{}) bool { panic("vc") }

// Rel is an uninterpreted relation.
func Rel(name string, args ...interface{}) bool { panic("vc") }

// RelStr is an uninterpreted string function.
func RelStr(name string, args ...interface{}) string { panic("vc") }

// RelInt is an uninterpreted integer function.
func RelInt(name string, args ...interface{}) int { panic("vc") }

// Snap copies a map as it is now.
func Snap[K comparable, V any](m map[K]V) map[K]V { panic("vc") }

// SnapSlice copies a slice as it is now.
func SnapSlice[T any](s []T) []T { panic("vc") }

// SameMap compares contents.
func SameMap[K comparable, V any](a, b map[K]V) bool { panic("vc") }

// SameSlice compares contents.
func SameSlice[T any](a, b []T) bool { panic("vc") }

// Forall quantifies over the parameters of a function literal returning bool.
func Forall(f interface{}) bool { panic("vc") }

// Exists quantifies over the parameters of a function literal returning bool.
func Exists(f interface{}) bool { panic("vc") }

// Calls counts the calls of a function value.
func Calls(f interface{}) int { panic("vc") }

// RelOf is an uninterpreted function.
func RelOf[T any](name string, args ...interface{}) T { panic("vc") }

// Decodes tells that data decodes into a T.
func Decodes[T any](data []byte) bool { panic("vc") }

// DecodesObject tells that data is a JSON object (or null).
func DecodesObject(data []byte) bool { panic("vc") }

// Null tells that data is the literal null.
func Null(data []byte) bool { panic("vc") }

// HasKey tells that data is a JSON object with the key.
func HasKey(data []byte, key string) bool { panic("vc") }

// KeyValue is the raw value of a key of a JSON object.
func KeyValue(data []byte, key string) []byte { panic("vc") }

// KeyText is its text.
func KeyText(data []byte, key string) string { panic("vc") }

// FieldValue is what decoding data leaves in a field with the key.
func FieldValue[T any](key string, data []byte, old T) T { panic("vc") }

// Decoded is what decoding data leaves in a new T.
func Decoded[T any](data []byte) T { panic("vc") }

// Matches tells that the constant pattern matches s.
func Matches(pattern, s string) bool { panic("vc") }

// Field is the field of *p with the given name, exported or not (models only).
func Field[T any](p interface{}, name string) T { panic("vc") }
