//! Small functions over the standard library: executed natively and interpreted with the models; the results
//! must agree (tools/selftest.py).
use std::cell::{Cell, RefCell};
use std::cmp::{Ordering, Reverse};
use std::collections::hash_map::Entry;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::{Rc, Weak};
use std::str::FromStr;
use regex::Regex;

fn j<T: ToString, I: IntoIterator<Item = T>>(i: I) -> String {
    let mut s = String::new();
    for x in i {
        s.push_str(&x.to_string());
        s.push(',');
    }
    s
}
fn o<T: ToString>(x: Option<T>) -> String {
    match x {
        None => "-".to_string(),
        Some(x) => x.to_string(),
    }
}
fn v() -> Vec<i32> {
    vec![3, 1, 4, 1, 5, 9, 2, 6]
}
fn w() -> Vec<String> {
    ["pear", "fig", "apple", "kiwi"].iter().map(|s| s.to_string()).collect()
}
fn hm() -> HashMap<String, i32> {
    let mut m = HashMap::new();
    m.insert("a".to_string(), 1);
    m
}
fn c(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum E3 {
    A,
    B,
    C,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct P2 {
    x: i32,
    y: String,
}
macro_rules! t { ($($n:ident = $e:expr;)*) => {
    $(pub fn $n() -> String { ($e).to_string() })*
    pub fn all() -> Vec<(&'static str, fn() -> String)> { vec![$((stringify!($n), $n as fn() -> String)),*] }
} }
t! {
    s_sort = { let mut x = v(); x.sort(); j(x) };
    s_sort_by = { let mut x = v(); x.sort_by(|a, b| b.cmp(a)); j(x) };
    s_sort_key = { let mut x = w(); x.sort_by_key(|s| s.len()); j(x) };
    s_sort_rev = { let mut x = w(); x.sort_by_key(|s| Reverse(s.clone())); j(x) };
    s_sort_unstable = { let mut x = w(); x.sort_unstable_by(|a, b| a.len().cmp(&b.len()).then_with(|| a.cmp(b))); j(x) };
    s_sort_str = { let mut x = w(); x.sort(); j(x) };
    s_sort_tuple = { let mut x = vec![(2, "b"), (1, "z"), (2, "a")]; x.sort(); j(x.iter().map(|(a, b)| format!("{}{}", a, b))) };
    s_sort_struct = { let mut x = vec![P2 { x: 2, y: "b".into() }, P2 { x: 1, y: "q".into() }, P2 { x: 2, y: "a".into() }]; x.sort(); j(x.iter().map(|p| format!("{}{}", p.x, p.y))) };
    s_sort_enum = { let mut x = vec![E3::C, E3::A, E3::B]; x.sort(); x == [E3::A, E3::B, E3::C] };
    s_dedup = { let mut x = vec![1, 1, 2, 2, 1]; x.dedup(); j(x) };
    s_dedup_key = { let mut x = w(); x.dedup_by_key(|s| s.len()); j(x) };
    s_dedup_by = { let mut x = v(); x.dedup_by(|a, b| *a > *b); j(x) };
    s_retain = { let mut x = v(); x.retain(|a| a % 2 == 1); j(x) };
    s_drain = { let mut x = v(); let d: Vec<i32> = x.drain(2..5).collect(); j(d) + "|" + &j(x) };
    s_drain_inc = { let mut x = v(); let d: Vec<i32> = x.drain(..=2).collect(); j(d) + "|" + &j(x) };
    s_splice = { let mut x = v(); let d: Vec<i32> = x.splice(1..3, vec![7, 7, 7]).collect(); j(d) + "|" + &j(x) };
    s_split_off = { let mut x = v(); let d = x.split_off(3); j(d) + "|" + &j(x) };
    s_swap_remove = { let mut x = v(); let d = x.swap_remove(1); format!("{}|{}", d, j(x)) };
    s_insert_remove = { let mut x = v(); x.insert(2, 77); let r = x.remove(0); format!("{}|{}", r, j(x)) };
    s_truncate = { let mut x = v(); x.truncate(3); x.truncate(10); j(x) };
    s_resize = { let mut x = vec![1]; x.resize(3, 0); j(x.clone()) + &{ x.resize(2, 9); j(x) } };
    s_append = { let mut x = vec![1]; let mut y = vec![2, 3]; x.append(&mut y); format!("{}{}", j(x), y.len()) };
    s_extend = { let mut x = vec![1]; x.extend([2, 3]); x.extend_from_slice(&[4, 5]); j(x) };
    s_swap = { let mut x = v(); x.swap(0, 5); j(x) };
    s_reverse = { let mut x = v(); x.reverse(); j(x) };
    s_rotate = { let mut x = v(); x.rotate_left(3); x.rotate_right(1); j(x) };
    s_fill = { let mut x = v(); x[2..4].fill(0); j(x) };
    s_fill_all = { let mut x = v(); x[..].fill(7); x[6..].fill(1); x[..=1].fill(2); j(x) };
    s_subrev = { let mut x = v(); x[2..].reverse(); x[..3].sort(); x[1..3][0] = 70; j(x) };
    s_subiter = { let mut x = v(); for y in x[3..5].iter_mut() { *y += 100; } x[1..].swap(0, 1); x[4..].rotate_left(1); j(x) };
    s_windows = j(v().windows(2).map(|p| p[1] - p[0]));
    s_chunks = j(v().chunks(3).map(|p| p.iter().sum::<i32>()));
    s_first_last = { let x = v(); format!("{}{}{}", o(x.first()), o(x.last()), o(Vec::<i32>::new().first())) };
    s_split_first = { let x = v(); match x.split_first() { Some((a, r)) => format!("{}|{}", a, r.len()), None => "no".to_string() } };
    s_split_last = { let x = v(); match x.split_last() { Some((a, r)) => format!("{}|{}", a, j(r)), None => "no".to_string() } };
    s_split_at = { let x = v(); let (a, b) = x.split_at(2); format!("{}|{}", j(a), j(b)) };
    s_get = { let x = v(); format!("{}{}{}", o(x.get(1)), o(x.get(99)), o(x.get(1..3).map(|s| s.len()))) };
    s_get_mut = { let mut x = v(); if let Some(y) = x.get_mut(1) { *y += 40; } j(x) };
    s_index_slice = { let x = v(); j(&x[2..]) + &j(&x[..2]) + &j(&x[1..=2]) };
    s_contains = { let x = v(); format!("{}{}", x.contains(&9), x.contains(&7)) };
    s_starts = { let x = v(); format!("{}{}{}", x.starts_with(&[3, 1]), x.ends_with(&[2, 6]), x.ends_with(&[6, 2])) };
    s_concat = { let x = vec![vec![1, 2], vec![3]]; j(x.concat()) };
    s_join = w().join("+");
    s_search = { let x = [1, 3, 5, 7]; format!("{}{}", match x.binary_search(&5) { Ok(i) => i, Err(i) => 100 + i }, match x.binary_search(&4) { Ok(i) => i, Err(i) => 100 + i }) };
    s_partition_point = [1, 3, 5, 7].partition_point(|x| *x < 4);
    s_pop = { let mut x = v(); let a = x.pop(); format!("{}{}", o(a), x.len()) };
    s_slice_pat = { let x = v(); match x.as_slice() { [a, b, .., z] => a + b + z, _ => 0 } };
    s_eq = { vec![1, 2] == [1, 2] && vec![1, 2] != vec![1] && vec!["a".to_string()] == ["a"] };
    s_to_vec = { let x = v(); let y = x[1..3].to_vec(); j(y) };
    s_iter_mut = { let mut x = v(); for y in x.iter_mut() { *y *= 2; } j(x) };
    s_last_mut = { let mut x = v(); *x.last_mut().unwrap() = 0; *x.first_mut().unwrap() = 1; j(x) };

    i_map_filter = j(v().iter().map(|x| x * 2).filter(|x| x % 3 == 0));
    i_rev = j(v().iter().rev());
    i_enumerate = j(v().iter().enumerate().map(|(i, x)| i as i32 * x));
    i_skip_take = j(v().iter().skip(2).take(3));
    i_while = j(v().iter().skip_while(|x| **x != 4).take_while(|x| **x != 2));
    i_chain_zip = j(v().iter().chain([7, 8].iter()).zip(1..).map(|(a, b)| a * b));
    i_flat = j(vec![vec![1], vec![], vec![2, 3]].into_iter().flatten()) + &j((1..4).flat_map(|x| 0..x));
    i_fold = v().iter().fold(0, |a, x| a * 2 + x);
    i_rfold = v().iter().rfold(0, |a, x| a * 2 + x);
    i_try_fold = o(v().iter().try_fold(0i32, |a, x| if *x > 8 { None } else { Some(a + x) }));
    i_sum_prod = format!("{}{}", v().iter().sum::<i32>(), [2, 3, 4].iter().product::<i32>());
    i_minmax = format!("{}{}{}", o(v().iter().min()), o(v().iter().max()), o(v().iter().max_by_key(|x| (**x - 4).abs())));
    i_minmax_by = { let x = w(); format!("{}{}", o(x.iter().min_by(|a, b| a.len().cmp(&b.len()))), o(x.iter().max_by(|a, b| a.len().cmp(&b.len())))) };
    i_minmax_key = { let x = w(); format!("{}{}", o(x.iter().min_by_key(|a| a.len())), o(x.iter().max_by_key(|a| a.len()))) };
    i_minmax_str = { let x = w(); format!("{}{}", o(x.iter().min()), o(x.iter().max())) };
    i_pos = format!("{}{}{}", o(v().iter().position(|x| *x == 1)), o(v().iter().rposition(|x| *x == 1)), o(v().iter().position(|x| *x == 88)));
    i_find = format!("{}{}{}", o(v().iter().find(|x| **x > 4)), o(v().iter().rfind(|x| **x < 4)), o(v().iter().find_map(|x| if *x > 4 { Some(x * 100) } else { None })));
    i_any_all = format!("{}{}{}", v().iter().any(|x| *x == 9), v().iter().all(|x| *x > 0), v().iter().all(|x| *x > 1));
    i_count_last_nth = format!("{}{}{}", v().iter().count(), o(v().iter().last()), o(v().iter().nth(3)));
    i_partition = { let (a, b): (Vec<i32>, Vec<i32>) = v().into_iter().partition(|x| *x < 4); j(a) + "|" + &j(b) };
    i_unzip = { let (a, b): (Vec<i32>, Vec<String>) = v().into_iter().take(2).map(|x| (x, x.to_string())).unzip(); j(a) + &j(b) };
    i_scan = j(v().iter().scan(0, |s, x| { *s += x; if *s > 20 { None } else { Some(*s) } }));
    i_step = j((0..10).step_by(3));
    i_map_while = j(v().iter().map_while(|x| if *x < 5 { Some(x + 1) } else { None }));
    i_filter_map = j(v().iter().filter_map(|x| x.checked_sub(3)));
    i_peek = { let x = v(); let mut it = x.iter().peekable(); let mut s = String::new(); while let Some(a) = it.next() { s.push_str(&a.to_string()); if let Some(b) = it.peek() { if **b > *a { s.push('<'); } } } s };
    i_next_if = { let x = v(); let mut it = x.iter().peekable(); let a = it.next_if(|x| **x == 3); let b = it.next_if(|x| **x == 3); format!("{}{}{}", o(a), o(b), o(it.next())) };
    i_reduce = o(v().into_iter().reduce(|a, b| a * 2 - b));
    i_eq = format!("{}{}{}", v().iter().eq([3, 1, 4].iter()), [1, 2].iter().eq([1, 2].iter()), c([1, 2].iter().cmp([1, 3].iter())));
    i_lt = format!("{}{}", [1, 2].iter().lt([1, 2, 3].iter()), [2].iter().lt([1, 2].iter()));
    i_nth_back = o(v().iter().nth_back(1));
    i_next_back = { let x = v(); let mut it = x.iter(); let a = it.next_back(); let b = it.next(); let c2 = it.next_back(); format!("{}{}{}{}", o(a), o(b), o(c2), it.len()) };
    i_by_ref = { let x = v(); let mut it = x.into_iter(); let a: Vec<i32> = it.by_ref().take(2).collect(); j(a) + "|" + &j(it) };
    i_successors = j(std::iter::successors(Some(1), |x| if *x < 50 { Some(x * 3) } else { None }));
    i_from_fn = { let mut n = 0; j(std::iter::from_fn(|| { n += 1; if n < 4 { Some(n) } else { None } })) };
    i_once = j(std::iter::once(1).chain(std::iter::empty()).chain(std::iter::repeat(7).take(2)));
    i_zip_fn = j(std::iter::zip([1, 2], [3, 4]).map(|(a, b)| a * b));
    i_cloned = { let x = w(); let y: Vec<String> = x.iter().cloned().collect(); j(y) };
    i_collect_result = { let r: Result<Vec<i32>, std::num::ParseIntError> = ["1", "2"].iter().map(|s| i32::from_str(s)).collect(); match r { Ok(v) => j(v), Err(_) => "err".to_string() } };
    i_collect_option = { let r: Option<Vec<i32>> = [Some(1), None].into_iter().collect(); r.is_none() };
    i_collect_string = { let s: String = ["ab", "cd"].iter().copied().collect(); let t: String = s.chars().rev().collect(); s + &t };
    i_collect_map = { let m: BTreeMap<i32, i32> = v().into_iter().map(|x| (x, x * x)).collect(); j(m.values()) };
    i_sorted = format!("{}{}", [1, 2, 2].is_sorted(), v().is_sorted());
    i_range = { let mut n = 0; for i in (1..=4).rev() { n = n * 10 + i; } n };
    i_inspect = { let mut n = 0; let s: i32 = v().iter().inspect(|_| n += 1).sum(); s + n };
    i_try_for_each = { let mut n = 0; let r: Result<(), i32> = v().iter().try_for_each(|x| { n += x; if *x == 4 { Err(n) } else { Ok(()) } }); match r { Ok(()) => 0, Err(e) => e } };

    o_basic = { let a = Some(3); let b: Option<i32> = None; format!("{}{}{}{}{}", a.is_some(), b.is_none(), a.unwrap_or(9), b.unwrap_or(9), a.map_or(0, |x| x + 1)) };
    o_and = { let a = Some(3); format!("{}{}{}{}", o(a.and(Some(4))), o(a.or(None)), o(a.xor(None)), o(a.filter(|x| *x > 5))) };
    o_take = { let mut a = Some(3); let b = a.take(); let e = a.replace(8); format!("{}{}{}", o(a), o(b), o(e)) };
    o_insert = { let mut a = None; *a.get_or_insert(4) += 1; let b = *a.insert(7); format!("{}{}", o(a), b) };
    o_take_if = { let mut a = Some(4); let x = a.take_if(|v| *v == 5); let y = a.take_if(|v| *v == 4); format!("{}{}{}", o(a), o(x), o(y)) };
    o_zip = { let z = Some(1).zip(Some("x")); match z { Some((a, b)) => format!("{}{}", a, b), None => "n".to_string() } };
    o_ok_or = { let a: Result<i32, &str> = None.ok_or("bad"); match a { Ok(x) => x.to_string(), Err(e) => e.to_string() } };
    o_deref = { let a = Some("hi".to_string()); format!("{}{}", a.as_deref().unwrap_or("no"), a.as_ref().map(|s| s.len()).unwrap_or(0)) };
    o_flatten = o(Some(Some(3)).flatten());
    o_is_some_and = format!("{}{}{}", Some(3).is_some_and(|x| x > 2), None::<i32>.is_some_and(|x| x > 2), None::<i32>.is_none_or(|x| x > 2));
    o_cmp = format!("{}{}", Some(1) < Some(2), None < Some(0));
    o_transpose = { let a: Option<Result<i32, ()>> = Some(Ok(3)); match a.transpose() { Ok(x) => o(x), Err(()) => "e".to_string() } };
    o_iter = j(Some(3).into_iter().chain(None));
    o_unwrap_or_else = None.unwrap_or_else(|| 5) + Some(1).unwrap_or_default() + None::<i32>.unwrap_or_default();
    r_basic = { let a: Result<i32, String> = Ok(3); let b: Result<i32, String> = Err("e".to_string()); format!("{}{}{}{}", a.is_ok(), b.is_err(), a.clone().unwrap_or(1), b.clone().unwrap_or(1)) };
    r_map = { let b: Result<i32, i32> = Err(3); format!("{}{}{}", b.map_err(|x| x + 1).unwrap_err(), o(b.ok()), o(b.err())) };
    r_and_then = { let b: Result<i32, i32> = Ok(3); match b.and_then(|x| if x > 2 { Err(x) } else { Ok(x) }) { Ok(x) => x, Err(e) => e * 10 } };
    r_or_else = { let b: Result<i32, i32> = Err(3); match b.or_else(|e| if e > 2 { Ok::<i32, i32>(e) } else { Err(0) }) { Ok(x) => x, Err(e) => e * 10 } };
    r_question = { fn f(s: &str) -> Result<i32, std::num::ParseIntError> { Ok(i32::from_str(s)? + 1) } match f("41") { Ok(x) => x, Err(_) => 0 } };

    h_insert = { let mut m = hm(); let a = m.insert("b".to_string(), 2); let b = m.insert("b".to_string(), 3); format!("{}{}{}{}", o(a), o(b), m.len(), m["b"]) };
    h_get = { let mut m = hm(); if let Some(x) = m.get_mut("a") { *x += 5; } format!("{}{}{}", o(m.get("a")), o(m.get("z")), m.contains_key("a")) };
    h_remove = { let mut m = hm(); let a = m.remove("a"); let b = m.remove("a"); format!("{}{}{}", o(a), o(b), m.is_empty()) };
    h_remove_entry = { let mut m = hm(); match m.remove_entry("a") { Some((k, v)) => format!("{}{}{}", k, v, m.len()), None => String::new() } };
    h_entry = { let mut m = hm(); *m.entry("a".to_string()).or_insert(0) += 1; *m.entry("b".to_string()).or_insert_with(|| 7) += 1; *m.entry("c".to_string()).or_default() += 1; format!("{}{}{}", m["a"], m["b"], m["c"]) };
    h_entry_modify = { let mut m = hm(); m.entry("a".to_string()).and_modify(|x| *x = 9).or_insert(1); m.entry("z".to_string()).and_modify(|x| *x = 9).or_insert(1); format!("{}{}", m["a"], m["z"]) };
    h_entry_match = { let mut m = hm(); let mut s = String::new(); for k in ["a", "q"] { match m.entry(k.to_string()) { Entry::Occupied(mut e) => { let old = e.insert(50); s.push_str(&old.to_string()); s.push_str(e.key()); } Entry::Vacant(e) => { *e.insert(60) += 1; } } } format!("{}{}{}", s, m["a"], m["q"]) };
    h_entry_remove = { let mut m = hm(); if let Entry::Occupied(e) = m.entry("a".to_string()) { let x = e.remove(); x + m.len() as i32 } else { 77 } };
    h_entry_get = { let mut m = hm(); match m.entry("a".to_string()) { Entry::Occupied(e) => *e.get() + *e.into_mut(), Entry::Vacant(e) => e.into_key().len() as i32 } };
    h_retain = { let mut m = hm(); m.insert("b".to_string(), 2); m.retain(|k, v| k == "b" && *v == 2); format!("{}{}", m.len(), m["b"]) };
    h_iter = { let m = hm(); let mut s = 0; for (k, v) in &m { s += v + k.len() as i32; } s };
    h_values_mut = { let mut m = hm(); for v in m.values_mut() { *v += 10; } j(m.into_values()) };
    h_drain = { let mut m = hm(); let x: Vec<(String, i32)> = m.drain().collect(); format!("{}{}", x.len(), m.len()) };
    h_eq = { let a = hm(); let mut b = hm(); let e = a == b; b.insert("c".to_string(), 1); format!("{}{}", e, a == b) };
    h_extend = { let mut m = hm(); m.extend(vec![("x".to_string(), 5), ("a".to_string(), 6)]); format!("{}{}{}", m.len(), m["x"], m["a"]) };
    h_keys = { let m = hm(); j(m.keys()) };
    h_set = { let mut s = HashSet::new(); format!("{}{}{}{}{}", s.insert(1), s.insert(1), s.contains(&1), s.remove(&1), s.len()) };
    b_order = { let mut m = BTreeMap::new(); for s in w() { m.insert(s.clone(), s.len()); } j(m.keys()) + &j(m.values()) };
    b_first_last = { let mut m = BTreeMap::new(); for s in w() { m.insert(s.clone(), s.len()); } let a = m.pop_first(); let z = m.last_key_value().map(|(k, _)| k.clone()); format!("{}{}", a.unwrap().0, o(z)) };
    b_set = { let s: BTreeSet<i32> = v().into_iter().collect(); j(s) };
    b_entry = { let mut m: BTreeMap<i32, i32> = BTreeMap::new(); for x in v() { *m.entry(x).or_insert(0) += 1; } j(m.iter().map(|(k, v)| k * 10 + v)) };
    b_into = { let m: BTreeMap<i32, i32> = v().into_iter().map(|x| (-x, x)).collect(); j(m.into_iter().map(|(k, v)| k + 2 * v)) };
    d_deque = { let mut q = VecDeque::new(); q.push_back(1); q.push_back(2); q.push_front(0); let a = q.pop_front(); let b = q.pop_back(); format!("{}{}{}{}", o(a), o(b), q.len(), q.contains(&1)) };
    d_extend = { let mut q: VecDeque<i32> = v().into_iter().collect(); q.extend([8]); q.remove(0); j(q.into_iter().rev()) };

    c_cmp = format!("{}{}{}", c(1.cmp(&2)), c("b".cmp("a")), c(2.partial_cmp(&2).unwrap()));
    c_rev = format!("{}{}", c(1.cmp(&2).reverse()), c(1.cmp(&1).then(2.cmp(&1))));
    c_minmax = format!("{}{}{}", 1.min(2), 5.max(3), 17.clamp(0, 9));
    c_minstr = "b".to_string().min("a".to_string());
    c_cmpfn = std::cmp::max(3, 8) - std::cmp::min(3, 8);
    c_tuple = (1, "b") < (1, "c") && (2, "a") > (1, "z");
    c_enum = E3::A < E3::B && E3::C.max(E3::B) == E3::C;
    c_struct = P2 { x: 1, y: "a".into() } < P2 { x: 1, y: "b".into() };
    c_char = 'a' < 'b' && 'z' > 'b' && c('a'.cmp(&'a')) == 0;
    c_bool = c(true.cmp(&false));
    c_vec = vec![1, 2] < vec![1, 3] && vec![1] < vec![1, 0];

    n_ops = format!("{}{}{}", 17 % 5, -17 / 5, -17 % 5);
    n_checked = format!("{}{}{}", o(5u8.checked_sub(6)), o(250u8.checked_add(5)), o(3usize.checked_sub(1)));
    n_sat = format!("{}{}{}", 5u8.saturating_sub(6), 250u8.saturating_add(9), 5u32.abs_diff(9));
    n_wrap = format!("{}{}", 5u8.wrapping_sub(6), 250u8.wrapping_add(9));
    n_not = format!("{}{}{}", !0u8, !5u16, !7i32);
    n_shift = format!("{}{}", 1u32 << 4, 0xf0u8 >> 4);
    n_bits = format!("{}{}{}", 6 & 3, 6 | 3, 6 ^ 3);
    n_pow = format!("{}{}", 2i32.pow(10), 10usize.is_multiple_of(5));
    n_parse = format!("{}{}", i32::from_str("-12").unwrap(), u8::from_str("256").is_err());
    n_radix = format!("{}{}", u32::from_str_radix("1f", 16).unwrap(), u32::from_str_radix("z", 10).is_err());
    n_hex = format!("{:x}{:X}", 255, 171);
    n_cast = format!("{}{}{}", 300i32 as u8, 'a' as u32, 97u8 as char);
    n_euclid = format!("{}{}", 7u32.rem_euclid(4), 7u32.div_euclid(4));

    x_trim = format!("[{}][{}][{}]", " a b ".trim(), "  x".trim_start(), "xxaxx".trim_matches('x'));
    x_split = j("a,b,,c".split(',')) + &j("a,b,,c".splitn(2, ',')) + &j("a b  c".split_whitespace());
    x_split_once = { match "k=v=w".split_once('=') { Some((a, b)) => format!("{}|{}", a, b), None => "no".to_string() } };
    x_rsplit_once = { match "k=v=w".rsplit_once('=') { Some((a, b)) => format!("{}|{}", a, b), None => "no".to_string() } };
    x_find = format!("{}{}{}", o("hello".find('l')), o("hello".rfind('l')), o("hello".find("zz")));
    x_replace = "aXbX".replace('X', "--") + &"aaa".replacen("a", "b", 2);
    x_case = "aBc".to_uppercase() + &"aBc".to_lowercase() + &"aBc".to_ascii_uppercase();
    x_chars = "añb".chars().rev().collect::<String>() + &j("añb".char_indices().map(|(i, _)| i)) + &j("añb".bytes().map(|b| b as u32));
    x_strip = o("pre-x".strip_prefix("pre-")) + &o("x.y".strip_suffix(".y")) + &o("x".strip_prefix("y"));
    x_starts = format!("{}{}{}", "abc".starts_with("ab"), "abc".ends_with('c'), "abc".contains("bc"));
    x_slice = { let s = "hello".to_string(); format!("{}{}{}", &s[1..3], &s[3..], o(s.get(9..))) };
    x_insert = { let mut s = "ac".to_string(); s.insert(1, 'b'); s.insert_str(3, "de"); s.push('f'); let p = s.pop(); format!("{}{}", s, p.unwrap()) };
    x_remove = { let mut s = "abc".to_string(); let ch = s.remove(1); s.truncate(1); format!("{}{}", ch, s) };
    x_drain = { let mut s = "abcdef".to_string(); let t: String = s.drain(1..3).collect(); s + "|" + &t };
    x_range = { let mut s = "abcdef".to_string(); s.replace_range(1..3, "ZZZ"); s };
    x_split_off = { let mut s = "abcdef".to_string(); let t = s.split_off(2); s + "|" + &t };
    x_retain = { let mut s = "abcabc".to_string(); s.retain(|c| c != 'b'); s };
    x_repeat = "ab".repeat(3);
    x_eq = format!("{}{}", "abc".eq_ignore_ascii_case("ABC"), "a" == "a".to_string());
    x_lines = j("a\nb\r\nc".lines());
    x_match = j("abcabc".match_indices('b').map(|(i, _)| i)) + &j("abcabc".matches("bc"));
    x_len = format!("{}{}{}", "añb".len(), "añb".chars().count(), "".is_empty());
    x_cmp = "abc" < "abd" && "ab" < "abc" && "b" > "abc";
    x_bytes = String::from_utf8(vec![104, 105]).unwrap() + std::str::from_utf8(&[111]).unwrap();
    x_inclusive = j("a\nb\n".split_inclusive('\n').map(|s| s.len()));
    x_term = j("a;b;".split_terminator(';')) + &j("a;b".rsplit(';'));
    x_width = format!("{:5}|", "ab");
    x_right = format!("{:>5}|", "ab");
    x_zero = format!("{:05}|{:3}|", 42, 7);
    x_hexalt = format!("{:#x}", 255);
    x_prec = format!("{:.2}|", "abcdef");
    x_debug = format!("{:?}", 5);
    x_debug_str = format!("{:?}", "ab");
    x_positional = format!("{1}{0}{name}", 1, 2, name = "n");
    x_charfn = format!("{}{}{}{}", 'a'.is_alphabetic(), '9'.is_ascii_digit(), 'Z'.to_ascii_lowercase(), ' '.is_whitespace());
    x_char_conv = format!("{}{}", char::from_u32(65).unwrap(), char::from_u32(0xD800).is_none());
    x_trim_fn = "123abc456".trim_matches(char::is_numeric).to_string() + "aab".trim_start_matches("a") + "baa".trim_end_matches('a');
    x_boundary = format!("{}{}", "añb".is_char_boundary(2), "añb".is_char_boundary(1));
    x_concat = ["a", "b"].concat() + &vec!["c", "d"].join("/");

    r_match = format!("{}{}", Regex::new("^a+b?$").unwrap().is_match("aaab"), Regex::new("^a+b?$").unwrap().is_match("aaabb"));
    r_find = o(Regex::new("b|bc").unwrap().find("abcd").map(|m| m.start() + 10 * m.end()).as_ref());
    r_lazy = Regex::new("<.+?>").unwrap().find("x<a><b>").unwrap().as_str().to_string();
    r_greedy = Regex::new("<.+>").unwrap().find("x<a><b>y").unwrap().as_str().to_string();
    r_all = Regex::new(r"\u{0D}[\u{0A}\u{85}]?|\u{85}|\u{2028}").unwrap().replace_all("one\rtwo\r\n\nthree\n\r\u{85}four\u{85}five\u{2028}", "\n").replace('\n', "N");
    r_names = { let r = Regex::new(r"(?P<e>[&%][\pL_][\pL\.\d_\-]*;)|(?P<c>&#\d+;)|(?P<w>[\u{09}\u{0A}\u{0D}])").unwrap(); let mut o = String::new(); for c in r.captures_iter("x&é1;&#12;\t&;&1;%p.-;") { for n in ["e", "c", "w"] { if let Some(m) = c.name(n) { o.push_str(&format!("{}@{}-{};", n, m.start(), m.end())); } } } o };
    r_groups = { let r = Regex::new("(a)(b)?(?:c)").unwrap(); let c = r.captures("xac").unwrap(); format!("{}{}{}", &c[0], &c[1], c.get(2).is_none()) };
    r_split = j(Regex::new(r"\s*,\s*").unwrap().split("a , b,c,"));
    r_empty = Regex::new("x*").unwrap().replace_all("axxb", "-").to_string();
    r_closure = Regex::new("[0-9]{2,3}").unwrap().replace_all("1 22 333 4444", |c: &regex::Captures| format!("<{}>", &c[0])).to_string();
    r_neg = j(Regex::new("[^a-c]+").unwrap().find_iter("xaybzc").map(|m| m.as_str().to_string()));
    r_parse = format!("{}{}{}{}", o("65".parse::<u32>().ok().as_ref()), o("+7".parse::<u8>().ok().as_ref()), o("".parse::<u32>().ok().as_ref()), o("99999999999".parse::<u32>().ok().as_ref()));
    r_radix = format!("{}{}{}", o(u32::from_str_radix("fF", 16).ok().as_ref()), o(u32::from_str_radix("g", 16).ok().as_ref()), o(u32::from_str_radix("100000000", 16).ok().as_ref()));

    k_rc = { let a = Rc::new(5); let b = a.clone(); format!("{}{}{}", Rc::strong_count(&a), Rc::ptr_eq(&a, &b), *a + *b) };
    k_weak = { let a = Rc::new(5); let w2 = Rc::downgrade(&a); let x = w2.upgrade().is_some(); drop(a); format!("{}{}{}", x, w2.upgrade().is_none(), Weak::<i32>::new().upgrade().is_none()) };
    k_cell = { let c2 = Cell::new(3); c2.set(4); let old = c2.replace(5); format!("{}{}{}", c2.get(), old, c2.take()) };
    k_refcell = { let r = RefCell::new(vec![1]); r.borrow_mut().push(2); let n = r.borrow().len(); let old = r.replace(vec![]); format!("{}{}{}", n, old.len(), r.take().len()) };
    k_try_borrow = { let r = RefCell::new(1); let g = r.borrow_mut(); let a = r.try_borrow().is_err(); drop(g); format!("{}{}", a, r.try_borrow_mut().is_ok()) };
    k_swap = { let a = RefCell::new(1); let b = RefCell::new(2); a.swap(&b); format!("{}{}", a.borrow(), b.borrow()) };
    k_mem = { let mut a = vec![1]; let b = std::mem::take(&mut a); let c3 = std::mem::replace(&mut a, vec![5, 6]); let mut d2 = vec![]; std::mem::swap(&mut a, &mut d2); format!("{}{}{}{}", a.len(), b.len(), c3.len(), d2.len()) };
    k_discr = format!("{}{}", std::mem::discriminant(&E3::A) == std::mem::discriminant(&E3::A), std::mem::discriminant(&E3::A) == std::mem::discriminant(&E3::B));
    k_box = { let f: Box<dyn Fn(i32) -> i32> = Box::new(|x| x + 1); f(3) };
    k_fnptr = { let f: fn(&str) -> String = str::to_uppercase; f("abc") };
    k_try_unwrap = { let a = Rc::new(7); let b = a.clone(); let e = Rc::try_unwrap(a).is_err(); format!("{}{}", e, Rc::try_unwrap(b).unwrap_or(0)) };
    k_bool = o(true.then(|| 3)) + &o(false.then_some(4));
    k_array = j([1, 2, 3].map(|x| x * x)) + &j([0; 3]);
    k_let_else = { let f = |s: &str| -> usize { let Some((a, _)) = s.split_once('.') else { return 0 }; a.len() }; f("abc.d") * 10 + f("x") };
    k_labeled = { let mut n = 0; 'a: for i in 0..5 { for k in 0..5 { if i * k == 6 { break 'a; } n += 1; } } n };
    k_matches = matches!(Some(3), Some(x) if x > 2);
    k_shadow = { let x = 3; let x = { let y = x * 2; y + 1 }; x };
    k_chain_cmp = w().iter().map(|s| s.len()).collect::<Vec<_>>() == vec![4, 3, 5, 4];
    k_cow = { let a = std::borrow::Cow::Borrowed("ab"); let b: std::borrow::Cow<str> = std::borrow::Cow::Owned("cd".to_string()); a.into_owned() + &b };
    k_ref_map = { let r = RefCell::new((1, "x".to_string())); let g = std::cell::Ref::map(r.borrow(), |t| &t.1); g.len() };
}
