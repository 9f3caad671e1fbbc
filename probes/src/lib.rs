//! Small functions that exercise the summaries of library functions: every assertion of an `ok_`
//! function always holds, the assertion of a `no_` function can fail.
#![allow(clippy::all)]
use std::collections::HashMap;

pub fn ok_split_last(x: &[u8]) {
    match x.split_last() {
        Some((&l, rest)) => {
            assert!(rest.len() + 1 == x.len());
            assert!(l == x[x.len() - 1]);
        }
        None => assert!(x.is_empty()),
    }
}
pub fn ok_split_first(x: &[u8]) {
    if let Some((f, rest)) = x.split_first() {
        assert!(*f == x[0]);
        assert!(rest.len() == x.len() - 1);
        assert!(rest.is_empty() || rest[0] == x[1]);
    } else {
        assert!(x.len() == 0);
    }
}
pub fn no_split_first(x: &[u8]) {
    if let Some((f, rest)) = x.split_first() {
        assert!(rest.is_empty() || rest[0] == *f);
    }
}
pub fn ok_first_last(x: &[u8]) {
    assert!(x.first().is_some() == (x.len() > 0));
    if let Some(l) = x.last() {
        assert!(*l == x[x.len() - 1]);
    }
    if x.len() == 1 {
        assert!(x.first() == x.last());
    }
}
pub fn ok_starts(x: &[u8]) {
    if x.starts_with(b"ab") {
        assert!(x.len() >= 2);
        assert!(x[0] == b'a' && x[1] == b'b');
    }
    if x.ends_with(b"yz") {
        assert!(x.len() >= 2);
        assert!(x[x.len() - 1] == b'z');
    }
}
pub fn ok_starts_not(x: &[u8]) {
    if x.len() == 2 && x[0] == b'a' && x[1] == b'b' {
        assert!(x.starts_with(b"ab"));
        assert!(x == b"ab");
        assert!(x.ends_with(b"b"));
    }
}
pub fn ok_get_range(x: &[u8], n: usize) {
    match x.get(n..) {
        Some(r) => assert!(r.len() == x.len() - n),
        None => assert!(n > x.len()),
    }
    match x.get(..n) {
        Some(r) => assert!(r.len() == n),
        None => assert!(n > x.len()),
    }
    if let Some(r) = x.get(1..n) {
        assert!(n >= 1);
        assert!(r.len() == n - 1);
    }
    if let Some(r) = x.get(n) {
        assert!(*r == x[n]);
    }
}
pub fn ok_strip_prefix(x: &[u8]) {
    match x.strip_prefix(b"ab") {
        Some(r) => assert!(r.len() + 2 == x.len() && x[0] == b'a'),
        None => assert!(!x.starts_with(b"ab")),
    }
}
pub fn ok_strip_prefix_str(x: &str) {
    match x.strip_prefix("ab") {
        Some(r) => assert!(r.len() + 2 == x.len()),
        None => assert!(!x.starts_with("ab")),
    }
    if let Some(r) = x.strip_suffix("ab") {
        assert!(r.len() + 2 == x.len());
    }
}
pub fn ok_position(x: &[u8]) {
    match x.iter().position(|&b| b == b'/') {
        Some(i) => {
            assert!(i < x.len());
            assert!(x[i] == b'/');
        }
        None => assert!(x.is_empty() || x[0] != b'/'),
    }
    if let Some(i) = x.iter().rposition(|&b| b == b'/') {
        assert!(i < x.len());
        assert!(x[i] == b'/');
    }
}
pub fn ok_any_all(x: &[u8]) {
    if x.len() == 1 {
        assert!(x.iter().any(|b| *b == 3) == (x[0] == 3));
        assert!(x.iter().all(|b| *b == 3) == (x[0] == 3));
    }
    if x.is_empty() {
        assert!(!x.iter().any(|b| *b == 3));
        assert!(x.iter().all(|b| *b == 3));
    }
}
pub fn ok_contains(x: &[u8]) {
    if x.len() == 1 {
        assert!(x.contains(&3) == (x[0] == 3));
    }
}
pub fn ok_split_at(x: &[u8], n: usize) {
    if n <= x.len() {
        let (a, b) = x.split_at(n);
        assert!(a.len() == n);
        assert!(b.len() == x.len() - n);
    }
}
pub fn no_split_at(x: &[u8], n: usize) {
    let (a, _) = x.split_at(n);
    assert!(a.len() == n);
}
pub fn ok_arrays() {
    let mut t = 0;
    for &i in &[1, 2, 3] {
        t += i;
    }
    assert!(t == 6);
    let mut u = 0;
    for i in [4u32, 5].iter() {
        u += *i;
    }
    assert!(u == 9);
    let a = [1usize, 2, 3];
    let mut w = 0;
    for x in a {
        w += x;
    }
    assert!(w == 6);
}
pub fn ok_ints(a: u32, b: u32) {
    match a.checked_sub(b) {
        Some(c) => assert!(a >= b && c == a - b),
        None => assert!(a < b),
    }
    assert!(a.saturating_sub(b) <= a);
    if a >= b {
        assert!(a.saturating_sub(b) == a - b);
        assert!(a.wrapping_sub(b) == a - b);
        assert!(a.abs_diff(b) == a - b);
    }
    assert!(a.min(b) <= a && a.max(b) >= a);
    assert!(std::cmp::min(a, b) <= b);
    if let Some(c) = a.checked_add(b) {
        assert!(c >= a);
    }
    if let Some(c) = a.checked_mul(b) {
        assert!(b == 0 || c >= a || c < a);
    }
    if b > 0 {
        assert!(a / b <= a);
        assert!(a % b < b);
    }
    assert!(a.checked_div(0).is_none());
    let (_, o) = a.overflowing_add(0);
    assert!(!o);
    assert!(a.clamp(3, 9) >= 3);
}
pub fn ok_bits(a: u32) {
    assert!(a & 7 < 8);
    assert!((a >> 3) & 7 <= 7);
    assert!(a & 0xff == a % 256);
}
pub fn ok_pow(a: u8) {
    assert!(2u32.pow(3) == 8);
    let x = u32::from(a);
    assert!(x < 256);
    assert!(x as u64 + 1 <= 256);
    assert!(usize::from(a) < 256);
    assert!(i64::from(a) >= 0);
}
pub fn ok_vec_push(n: u8) {
    let mut v = Vec::new();
    v.push(1u8);
    v.push(n);
    assert!(v.len() == 2);
    assert!(v[1] == n);
    assert!(v.pop() == Some(n));
    assert!(v.len() == 1);
    v.insert(0, 7);
    assert!(v[0] == 7 && v[1] == 1);
    let r = v.remove(0);
    assert!(r == 7 && v.len() == 1);
    v.truncate(0);
    assert!(v.is_empty());
}
pub fn ok_vec_macro() {
    let v = vec![1u8, 2, 3];
    assert!(v.len() == 3 && v[2] == 3);
    let w = vec![0usize; 5];
    assert!(w.len() == 5 && w[4] == 0);
    let s = v.as_slice();
    assert!(s.len() == 3);
    let u = s.to_vec();
    assert!(u.len() == 3);
    let x: Vec<u8> = s.iter().cloned().collect();
    assert!(x.len() == 3);
}
pub fn ok_vec_extend(a: &[u8]) {
    let mut v = Vec::with_capacity(a.len());
    v.extend_from_slice(a);
    assert!(v.len() == a.len());
    v.extend(a.iter());
    assert!(v.len() == a.len() + a.len());
    v.clear();
    assert!(v.len() == 0);
}
pub fn ok_swap(mut a: Vec<u32>, mut b: Vec<u32>) {
    let (n, m) = (a.len(), b.len());
    std::mem::swap(&mut a, &mut b);
    assert!(a.len() == m && b.len() == n);
    let c = std::mem::replace(&mut a, Vec::new());
    assert!(c.len() == m && a.is_empty());
    let d = std::mem::take(&mut b);
    assert!(d.len() == n && b.is_empty());
}
pub fn ok_option(x: Option<u32>) {
    assert!(x.map(|v| v as u64).is_some() == x.is_some());
    assert!(x.map_or(0, |v| v) == x.unwrap_or(0));
    assert!(x.filter(|v| *v > 3).map_or(true, |v| v > 3));
    assert!(x.or(Some(1)).is_some());
    assert!(x.and_then(|v| v.checked_sub(v)) == x.map(|_| 0));
    assert!(x.ok_or(3).is_ok() == x.is_some());
    assert!(x.unwrap_or_default() == x.unwrap_or(0));
    assert!(x.is_some_and(|v| v > 3) == x.map_or(false, |v| v > 3));
    assert!(x.xor(None) == x);
    assert!(x.iter().count() <= 1);
    let mut y = x;
    let t = y.take();
    assert!(y.is_none() && t == x);
    let o = y.replace(4);
    assert!(o.is_none() && y == Some(4));
    assert!(*y.get_or_insert(5) == 4);
    if let Some(v) = y.as_mut() {
        *v += 1;
    }
    assert!(y == Some(5));
    assert!(x.zip(y).is_some() == x.is_some());
}
pub fn ok_result(x: Result<u32, u8>) {
    assert!(x.is_ok() != x.is_err());
    assert!(x.ok().is_some() == x.is_ok());
    assert!(x.map(|v| v / 2).is_ok() == x.is_ok());
    assert!(x.map_err(|e| e as u32).is_err() == x.is_err());
    assert!(x.unwrap_or(3) == x.ok().unwrap_or(3));
    assert!(x.or_else(|_| Ok::<u32, u8>(1)).is_ok());
    assert!(x.and_then(|v| if v > 3 { Ok(v) } else { Err(1) }).map_or(true, |v| v > 3));
}
pub fn ok_iter_chain(x: &[u32]) {
    if x.len() == 2 {
        assert!(x.iter().count() == 2);
        assert!(x.iter().rev().next() == Some(&x[1]));
        assert!(x.iter().skip(1).next() == Some(&x[1]));
        assert!(x.iter().take(1).count() == 1);
        assert!(x.iter().last() == Some(&x[1]));
        assert!(x.iter().nth(1) == Some(&x[1]));
        assert!(x.iter().enumerate().last().map(|p| p.0) == Some(1));
        assert!(x.iter().zip(x.iter().skip(1)).count() == 1);
        assert!(x.iter().chain(x.iter()).count() == 4);
        assert!(x.iter().find(|v| **v == x[0]).is_some());
        assert!(x.iter().filter(|v| **v == x[0]).next() == Some(&x[0]));
        assert!(x.iter().map(|v| *v).next() == Some(x[0]));
        assert!(x.iter().cloned().fold(0u64, |a, b| a + b as u64) == x[0] as u64 + x[1] as u64);
        assert!(x.iter().max().map_or(false, |m| *m >= x[0]));
        assert!(x.iter().filter_map(|v| Some(*v)).next() == Some(x[0]));
        assert!(x.iter().step_by(2).count() == 1);
        assert!(x.iter().skip_while(|v| **v != x[0]).next() == Some(&x[0]));
        assert!(x.iter().take_while(|v| **v == x[0]).next() == Some(&x[0]));
        assert!(x.windows(2).count() == 1);
        assert!(x.chunks(2).count() == 1);
        assert!(x.iter().flat_map(|v| Some(*v)).count() == 2);
        assert!(x.iter().map(|v| *v as u64).sum::<u64>() == x[0] as u64 + x[1] as u64);
    }
}
pub fn ok_peekable(x: &[u32]) {
    if x.len() == 1 {
        let mut it = x.iter().peekable();
        assert!(it.peek().is_some());
        assert!(it.next() == Some(&x[0]));
        assert!(it.peek().is_none());
        assert!(it.next().is_none());
    }
}
pub fn ok_once_empty(x: u32) {
    let mut it = std::iter::once(x);
    assert!(it.next() == Some(x));
    assert!(it.next().is_none());
    assert!(std::iter::empty::<u32>().next().is_none());
    assert!(std::iter::repeat(x).next() == Some(x));
    assert!(std::iter::repeat(x).take(2).count() == 2);
}
pub fn ok_range() {
    let mut n = 0;
    for i in (0..3).rev() {
        n = n * 10 + i;
    }
    assert!(n == 210);
    let mut m = 0;
    for i in 0..=2 {
        m += i;
    }
    assert!(m == 3);
    assert!((0..3).map(|x| x * 2).sum::<i32>() == 6);
    assert!((1..4).contains(&3));
    assert!((0..4).len() == 4);
}
pub fn ok_while_let(x: &[u8]) {
    let mut it = x.iter();
    let mut n = 0usize;
    while let Some(_) = it.next() {
        n += 1;
        assert!(n <= x.len());
    }
}
pub fn ok_index_loop(x: &[u8]) {
    let mut i = 0;
    while i < x.len() && x[i] != b'/' {
        i += 1;
    }
    assert!(i <= x.len());
    assert!(i == x.len() || x[i] == b'/');
}
pub fn ok_strings(x: &str, c: char) {
    let mut s = String::new();
    s.push_str("ab");
    assert!(s.len() == 2);
    assert!(s == "ab");
    s.push('c');
    assert!(s.len() == 3);
    s.clear();
    assert!(s.is_empty());
    let t = x.to_owned();
    assert!(t.len() == x.len());
    assert!(t == x);
    let u = x.to_string();
    assert!(u == x);
    assert!(String::from(x) == x);
    assert!(x.as_bytes().len() == x.len());
    assert!(x.is_empty() == (x.len() == 0));
    assert!(c.len_utf8() >= 1);
    assert!(t.into_bytes().len() == x.len());
}
pub fn ok_str_find(x: &str) {
    if let Some(i) = x.find('.') {
        assert!(i < x.len());
        let a = &x[..i];
        assert!(a.len() == i);
        let b = &x[i + 1..];
        assert!(b.len() + i + 1 == x.len());
    }
    if let Some(i) = x.rfind(".x") {
        assert!(i + 2 <= x.len());
        let b = &x[i + 2..];
        assert!(b.len() < x.len());
    }
    if let Some((a, b)) = x.split_once('=') {
        assert!(a.len() + b.len() + 1 == x.len());
    }
    if let Some((a, b)) = x.rsplit_once('=') {
        assert!(a.len() + b.len() + 1 == x.len());
    }
    assert!(x.trim().len() <= x.len());
    assert!(x.trim_start().len() <= x.len());
    assert!(x.trim_end_matches('/').len() <= x.len());
    assert!(x.split('/').count() >= 1);
    assert!(x.split('/').next().is_some());
    assert!(x.lines().count() <= x.len());
    assert!(x.chars().count() <= x.len());
    if x == "abc" {
        assert!(x.chars().next() == Some('a'));
        assert!(x.starts_with('a'));
        assert!(x.bytes().next() == Some(b'a'));
        assert!(x.ends_with("bc"));
        assert!(x.contains("b"));
    }
}
pub fn no_str_index(x: &str) {
    let _ = &x[1..];
}
pub fn ok_str_parse(x: &str) {
    if let Ok(n) = x.parse::<u8>() {
        assert!(n as u32 <= 255);
    }
    match u32::from_str_radix(x, 16) {
        Ok(n) => assert!(n as u64 <= u32::MAX as u64),
        Err(_) => {}
    }
    let _ = x.to_lowercase();
    let _ = x.to_ascii_lowercase();
    let _ = x.eq_ignore_ascii_case("ab");
    let _ = x.char_indices().next();
    let _ = x.splitn(2, '=').next();
    let _ = x.replace("a", "b");
    let _ = x.is_char_boundary(3);
    let _ = std::str::from_utf8(x.as_bytes());
    let _ = String::from_utf8_lossy(x.as_bytes()).into_owned();
}
pub fn ok_chars(c: char) {
    match c.to_digit(16) {
        Some(d) => assert!(d < 16),
        None => {}
    }
    assert!((c as u32) < 0x110000);
    if c.is_ascii_digit() {
        assert!(c >= '0' && c <= '9');
    }
    let b = b'a';
    assert!(b.is_ascii_lowercase());
    assert!(!b.is_ascii_digit());
    assert!(b.to_ascii_uppercase() == b'A');
}
pub fn ok_char_class(b: u8) {
    if b.is_ascii_digit() {
        assert!(b >= b'0' && b <= b'9');
    }
    if b.is_ascii_hexdigit() {
        assert!(b >= b'0' && b <= b'f');
    }
    match b {
        b'0'..=b'9' => assert!(b - b'0' < 10),
        b'a'..=b'f' => assert!(b - b'a' + 10 < 16),
        _ => {}
    }
    match char::from(b) {
        '0' => assert!(b == 48),
        _ => assert!(b != 48),
    }
}
pub fn ok_sort(v: &mut Vec<u32>) {
    let n = v.len();
    v.sort();
    assert!(v.len() == n);
    v.sort_by(|a, b| b.cmp(a));
    v.sort_by_key(|a| *a);
    v.sort_unstable();
    assert!(v.len() == n);
    v.reverse();
    assert!(v.len() == n);
    v.dedup();
    assert!(v.len() <= n);
    v.retain(|x| *x > 3);
    assert!(v.len() <= n);
}
pub fn ok_binary_search(v: &[u32], x: u32) {
    match v.binary_search(&x) {
        Ok(i) => assert!(i < v.len()),
        Err(i) => assert!(i <= v.len()),
    }
    match v.binary_search_by(|y| y.cmp(&x)) {
        Ok(i) => assert!(i < v.len()),
        Err(i) => assert!(i <= v.len()),
    }
    match v.binary_search_by_key(&x, |y| *y) {
        Ok(i) => assert!(i < v.len()),
        Err(i) => assert!(i <= v.len()),
    }
    assert!(v.partition_point(|y| *y < x) <= v.len());
}
pub fn ok_cmp(a: u32, b: u32) {
    use std::cmp::Ordering;
    match a.cmp(&b) {
        Ordering::Less => assert!(a < b),
        Ordering::Equal => assert!(a == b),
        Ordering::Greater => assert!(a > b),
    }
    assert!(a.cmp(&b).reverse() == b.cmp(&a));
    assert!((a == b) == a.cmp(&b).is_eq());
    assert!(a.cmp(&b).is_lt() == (a < b));
    assert!(a.cmp(&b).then(Ordering::Less) != Ordering::Equal);
    assert!(a.partial_cmp(&b).is_some());
    assert!((a, 1) <= (a, 1));
    assert!(((a, 1) < (b, 1)) == (a < b));
}
pub fn ok_hashmap(k: u32, v: u32) {
    let mut m = HashMap::new();
    m.insert(k, v);
    assert!(m.get(&k) == Some(&v));
    assert!(m.contains_key(&k));
    assert!(m.len() == 1);
    *m.entry(k).or_insert(0) += 0;
    assert!(m[&k] == v);
    assert!(m.remove(&k) == Some(v));
    assert!(m.is_empty());
}
pub fn ok_box_rc(x: u32) {
    let b = Box::new(x);
    assert!(*b == x);
    let r = std::rc::Rc::new(x);
    assert!(*r.clone() == x);
    let c = std::cell::Cell::new(x);
    c.set(3);
    assert!(c.get() == 3);
    let d = std::cell::RefCell::new(x);
    *d.borrow_mut() = 4;
    assert!(*d.borrow() == 4);
    assert!(d.try_borrow_mut().is_ok());
    assert!(d.replace(9) == 4);
    assert!(d.into_inner() == 9);
}
pub fn no_refcell(d: &std::cell::RefCell<u32>) {
    let a = d.borrow();
    let _b = d.borrow_mut();
    drop(a);
}
pub fn ok_fmt(a: u8, s: &str) -> String {
    let x = format!("{}-{:02}", a, a);
    let y = format!("{:?}{:>5}{:<3}{:x}", s, a, s, a);
    let mut z = x + &y;
    use std::fmt::Write;
    write!(z, "{}", s).unwrap();
    z
}
pub fn ok_slices(x: &mut [u8], i: usize, j: usize) {
    if i < x.len() && j < x.len() {
        let (a, b) = (x[i], x[j]);
        x.swap(i, j);
        assert!(x[i] == b && x[j] == a);
        x[i] = 3;
        assert!(x[i] == 3);
    }
    if x.len() >= 2 {
        x[0..2].copy_from_slice(b"ab");
        assert!(x[0] == b'a');
    }
    if let Some(l) = x.last_mut() {
        *l = 9;
    }
    if let Some(l) = x.first_mut() {
        *l = 9;
        assert!(x[0] == 9);
    }
    if let Some(l) = x.get_mut(i) {
        *l = 7;
        assert!(x[i] == 7);
    }
    for b in x.iter_mut() {
        *b = 1;
    }
    x.reverse();
    x.fill(0);
}
pub fn ok_drain(v: &mut Vec<u32>) {
    let n = v.len();
    let t: Vec<u32> = v.drain(..).collect();
    assert!(v.is_empty());
    assert!(t.len() == n);
    let mut w = t;
    let u = w.split_off(0);
    assert!(u.len() == n);
    let mut a = vec![1u32, 2];
    a.append(&mut vec![3]);
    assert!(a.len() == 3 && a[2] == 3);
    a.swap_remove(0);
    assert!(a.len() == 2);
    a.resize(4, 0);
    assert!(a.len() == 4);
}
pub fn ok_pattern(x: &[u8]) {
    match x {
        [] => assert!(x.is_empty()),
        [a] => assert!(x.len() == 1 && x[0] == *a),
        [a, .., b] => assert!(x[0] == *a && x[x.len() - 1] == *b),
    }
    match x {
        [b'a', rest @ ..] => assert!(rest.len() + 1 == x.len() && x[0] == b'a'),
        _ => assert!(x.is_empty() || x[0] != b'a'),
    }
    match x {
        b"ab" => assert!(x.len() == 2 && x[1] == b'b'),
        b"abc" => assert!(x.len() == 3),
        _ => assert!(x != b"ab"),
    }
}
pub fn ok_cow(x: &[u8]) {
    let c = String::from_utf8_lossy(x);
    assert!(c.as_ref().len() == c.len());
    let o: std::borrow::Cow<'_, [u8]> = std::borrow::Cow::Borrowed(x);
    assert!(o.len() == x.len());
    assert!(o.into_owned().len() == x.len());
}
pub fn ok_paths(p: &std::path::Path) {
    let b = p.to_path_buf();
    assert!(b.as_path() == p);
    let _ = p.file_name();
    let _ = p.components().next();
    let _ = p.join("x");
    let _ = p.to_str();
    let _ = p.display().to_string();
    let _ = std::path::Path::new("a").starts_with(p);
    let _ = p.to_string_lossy();
    let _ = p.cmp(&b);
}
pub fn ok_try(x: &[u8]) -> Option<u8> {
    let a = x.first()?;
    assert!(x.len() >= 1);
    let b = x.get(1)?;
    assert!(x.len() >= 2);
    Some(*a ^ *b)
}
pub fn ok_closures(v: &[u32], k: u32) {
    let f = |x: u32| x.checked_add(k);
    if let Some(r) = f(3) {
        assert!(r >= k);
    }
    let g: fn(u32) -> u32 = |x| x / 2;
    assert!(g(4) == 2);
    let h: &dyn Fn(u32) -> u32 = &|x| x / 2;
    assert!(h(4) == 2);
    let mut n = 0u32;
    v.iter().take(3).for_each(|_| n += 1);
    assert!(n <= 3);
}
pub fn ok_io(mut r: Box<dyn std::io::Read>) -> std::io::Result<usize> {
    let mut b = [0u8; 4];
    let n = r.read(&mut b)?;
    let mut v = Vec::new();
    let m = r.read_to_end(&mut v)?;
    r.read_exact(&mut b)?;
    let mut s = String::new();
    r.read_to_string(&mut s)?;
    Ok(n.saturating_add(m))
}
