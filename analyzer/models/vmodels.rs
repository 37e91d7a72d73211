//! Reference bodies for standard-library combinators.  The abstract interpreter inlines these
//! in place of the library functions of the same name, so that closures are analysed in context.
#![allow(non_snake_case, dead_code, clippy::all)]

// ---- primitives the interpreter implements itself -----------------------------------------
pub fn p_next<I, T>(_i: &mut I) -> Option<T> { unimplemented!() }
pub fn p_next_back<I, T>(_i: &mut I) -> Option<T> { unimplemented!() }
pub fn p_into_iter<C, I>(_c: C) -> I { unimplemented!() }
pub fn p_new<C>() -> C { unimplemented!() }
pub fn p_push<C, T>(_c: &mut C, _t: T) { unimplemented!() }
pub fn p_map_insert<C, K, V>(_c: &mut C, _k: K, _v: V) { unimplemented!() }
pub fn p_any_bool() -> bool { unimplemented!() }
pub fn p_any<T>() -> T { unimplemented!() }
pub fn p_default<T>() -> T { unimplemented!() }
pub fn p_eq<T>(_a: &T, _b: &T) -> bool { unimplemented!() }
pub fn p_convert_err<E, F>(_e: E) -> F { unimplemented!() }
pub fn p_break<T>(_e: T) {}

// ---- Option ----------------------------------------------------------------------------
pub fn Option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn Option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn Option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn Option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn Option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn Option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, d: F) -> T { match o { Some(x) => x, None => d() } }
pub fn Option_unwrap_or_default<T>(o: Option<T>) -> T { match o { Some(x) => x, None => p_default() } }
pub fn Option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn Option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, e: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e()) } }
pub fn Option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn Option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn Option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn Option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn Option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn Option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn Option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn Option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn Option_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None } }
pub fn Option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
pub fn Option_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!("unwrap") } }
pub fn Option_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => panic!("expect") } }
pub fn Option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn Option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn Option_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn Option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn Option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }

// ---- Result ----------------------------------------------------------------------------
pub fn Result_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn Result_map_err<T, E, G, F: FnOnce(E) -> G>(r: Result<T, E>, f: F) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn Result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn Result_and<T, E, U>(r: Result<T, E>, s: Result<U, E>) -> Result<U, E> { match r { Ok(_) => s, Err(e) => Err(e) } }
pub fn Result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn Result_or<T, E, F>(r: Result<T, E>, p: Result<T, F>) -> Result<T, F> { match r { Ok(x) => Ok(x), Err(_) => p } }
pub fn Result_inspect<T, E, F: FnOnce(&T)>(r: Result<T, E>, f: F) -> Result<T, E> { match r { Ok(x) => { f(&x); Ok(x) } Err(e) => Err(e) } }
pub fn Result_inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> { match r { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }
pub fn Result_flatten<T, E>(r: Result<Result<T, E>, E>) -> Result<T, E> { match r { Ok(x) => x, Err(e) => Err(e) } }
pub fn Result_is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(_) => false, Err(e) => f(e) } }
pub fn Result_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(x) => f(x), Err(_) => d } }
pub fn Result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(x) => f(x), Err(e) => d(e) } }
pub fn Result_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn Result_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result_is_ok<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => true, Err(_) => false } }
pub fn Result_is_err<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => false, Err(_) => true } }
pub fn Result_is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(x) => f(x), Err(_) => false } }
pub fn Result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn Result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }
pub fn Result_unwrap_or_default<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => p_default() } }
pub fn Result_unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => panic!("unwrap") } }
pub fn Result_expect<T, E>(r: Result<T, E>, _m: &str) -> T { match r { Ok(x) => x, Err(_) => panic!("expect") } }
pub fn Result_transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> { match r { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }

// ---- bool ------------------------------------------------------------------------------
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }

// ---- iterator adaptors -----------------------------------------------------------------
pub struct Map<I, F> { pub it: I, pub f: F }
pub fn Iterator_map<I, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }
pub fn Map_next<I, F, T, U>(s: &mut Map<I, F>) -> Option<U> where F: FnMut(T) -> U { match p_next::<I, T>(&mut s.it) { Some(x) => Some((s.f)(x)), None => None } }
pub struct Filter<I, F> { pub it: I, pub f: F }
pub fn Iterator_filter<I, F>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }
pub fn Filter_next<I, F, T>(s: &mut Filter<I, F>) -> Option<T> where F: FnMut(&T) -> bool {
    loop { match p_next::<I, T>(&mut s.it) { Some(x) => { if (s.f)(&x) { return Some(x); } } None => return None } }
}
pub struct FilterMap<I, F> { pub it: I, pub f: F }
pub fn Iterator_filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub fn FilterMap_next<I, F, T, U>(s: &mut FilterMap<I, F>) -> Option<U> where F: FnMut(T) -> Option<U> {
    loop { match p_next::<I, T>(&mut s.it) { Some(x) => { if let Some(y) = (s.f)(x) { return Some(y); } } None => return None } }
}
pub struct TakeWhile<I, F> { pub it: I, pub f: F }
pub fn Iterator_take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f } }
pub fn TakeWhile_next<I, F, T>(s: &mut TakeWhile<I, F>) -> Option<T> where F: FnMut(&T) -> bool {
    match p_next::<I, T>(&mut s.it) { Some(x) => { if (s.f)(&x) { Some(x) } else { None } } None => None }
}
pub struct Inspect<I, F> { pub it: I, pub f: F }
pub fn Iterator_inspect<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub fn Inspect_next<I, F, T>(s: &mut Inspect<I, F>) -> Option<T> where F: FnMut(&T) { match p_next::<I, T>(&mut s.it) { Some(x) => { (s.f)(&x); Some(x) } None => None } }
pub struct Zip<A, B> { pub a: A, pub b: B }
pub fn Zip_next<A, B, T, U>(s: &mut Zip<A, B>) -> Option<(T, U)> {
    match p_next::<A, T>(&mut s.a) { Some(x) => match p_next::<B, U>(&mut s.b) { Some(y) => Some((x, y)), None => None }, None => None }
}
pub struct Chain<A, B> { pub a: A, pub b: B }
pub fn Chain_next<A, B, T>(s: &mut Chain<A, B>) -> Option<T> { match p_next::<A, T>(&mut s.a) { Some(x) => Some(x), None => p_next::<B, T>(&mut s.b) } }
pub struct Peekable<I> { pub it: I }
pub struct Enumerate<I> { pub it: I }
pub fn Enumerate_next<I, T>(s: &mut Enumerate<I>) -> Option<(usize, T)> { match p_next::<I, T>(&mut s.it) { Some(x) => Some((p_any::<usize>(), x)), None => None } }
pub struct FromFn<F> { pub f: F }
pub fn FromFn_next<F, T>(s: &mut FromFn<F>) -> Option<T> where F: FnMut() -> Option<T> { (s.f)() }
pub fn from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }

// ---- iterator consumers ----------------------------------------------------------------
pub fn Iterator_for_each<I, T, F: FnMut(T)>(mut it: I, mut f: F) { loop { match p_next::<I, T>(&mut it) { Some(x) => f(x), None => return } } }
pub fn Iterator_fold<I, T, B, F: FnMut(B, T) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop { match p_next::<I, T>(&mut it) { Some(x) => { acc = f(acc, x); } None => return acc } }
}
pub fn Iterator_try_fold_result<I, T, B, E, F: FnMut(B, T) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    loop { match p_next::<I, T>(it) { Some(x) => { acc = match f(acc, x) { Ok(a) => a, Err(e) => return Err(e) }; } None => return Ok(acc) } }
}
pub fn Iterator_try_for_each_result<I, T, E, F: FnMut(T) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    loop { match p_next::<I, T>(it) { Some(x) => { if let Err(e) = f(x) { return Err(e); } } None => return Ok(()) } }
}
pub fn Iterator_any<I, T, F: FnMut(T) -> bool>(it: &mut I, mut f: F) -> bool { loop { match p_next::<I, T>(it) { Some(x) => { if f(x) { return true; } } None => return false } } }
pub fn Iterator_all<I, T, F: FnMut(T) -> bool>(it: &mut I, mut f: F) -> bool { loop { match p_next::<I, T>(it) { Some(x) => { if !f(x) { return false; } } None => return true } } }
pub fn Iterator_find<I, T, F: FnMut(&T) -> bool>(it: &mut I, mut f: F) -> Option<T> { loop { match p_next::<I, T>(it) { Some(x) => { if f(&x) { return Some(x); } } None => return None } } }
pub fn Iterator_find_map<I, T, U, F: FnMut(T) -> Option<U>>(it: &mut I, mut f: F) -> Option<U> { loop { match p_next::<I, T>(it) { Some(x) => { if let Some(y) = f(x) { return Some(y); } } None => return None } } }
pub fn Iterator_position<I, T, F: FnMut(T) -> bool>(it: &mut I, mut f: F) -> Option<usize> { loop { match p_next::<I, T>(it) { Some(x) => { if f(x) { return Some(p_any::<usize>()); } } None => return None } } }
pub fn collect_seq<I, T, C>(it: I) -> C { let mut it = it; let mut c = p_new::<C>(); loop { match p_next::<I, T>(&mut it) { Some(x) => p_push(&mut c, x), None => return c } } }
pub fn collect_map<I, K, V, C>(it: I) -> C { let mut it = it; let mut c = p_new::<C>(); loop { match p_next::<I, (K, V)>(&mut it) { Some((k, v)) => p_map_insert(&mut c, k, v), None => return c } } }
pub fn collect_result<I, T, E, C>(it: I) -> Result<C, E> { let mut it = it; let mut c = p_new::<C>(); loop { match p_next::<I, Result<T, E>>(&mut it) { Some(Ok(x)) => p_push(&mut c, x), Some(Err(e)) => return Err(e), None => return Ok(c) } } }
pub fn collect_result_map<I, K, V, E, C>(it: I) -> Result<C, E> { let mut it = it; let mut c = p_new::<C>(); loop { match p_next::<I, Result<(K, V), E>>(&mut it) { Some(Ok((k, v))) => p_map_insert(&mut c, k, v), Some(Err(e)) => return Err(e), None => return Ok(c) } } }
pub fn extend_seq<C, J, I, T>(c: &mut C, src: J) { let mut it = p_into_iter::<J, I>(src); loop { match p_next::<I, T>(&mut it) { Some(x) => p_push(c, x), None => return } } }
pub fn extend_map<C, J, I, K, V>(c: &mut C, src: J) { let mut it = p_into_iter::<J, I>(src); loop { match p_next::<I, (K, V)>(&mut it) { Some((k, v)) => p_map_insert(c, k, v), None => return } } }
