//! C16: interface values with symbolic parts, compared, cloned and collected.
use crate::iface::*;
use crate::rt::*;
use scilla_parser::*;

/// a name: empty, or one or two symbolic characters
fn name() -> String {
    let n = fork(3);
    let mut s = String::new();
    for _ in 0..n {
        s.push(choose(128) as u8 as char)
    }
    s
}
fn name1() -> String {
    let mut s = String::new();
    s.push(choose(128) as u8 as char);
    s
}

fn leaf(i: u32) -> Type {
    match i {
        0 => Type::Bool,
        1 => Type::ByStrX(u64_() as usize),
        2 => Type::Other(name1()),
        3 => Type::String,
        4 => Type::Int32,
        5 => Type::Int64,
        6 => Type::Int128,
        7 => Type::Int256,
        8 => Type::Uint32,
        9 => Type::Uint64,
        10 => Type::Uint128,
        11 => Type::Uint256,
        12 => Type::BNum,
        13 => Type::ByStr,
        14 => Type::ByStr20,
        _ => Type::Other(name()),
    }
}
const LEAVES: u32 = 16;

/// a type of at most the given depth; `few` leaves below the top
fn ty(depth: u32, few: u32) -> Type {
    if depth == 0 {
        return leaf(fork(few));
    }
    let sub = |f: u32| Box::new(ty(depth - 1, f));
    match fork(LEAVES + 5) {
        16 => Type::Map(sub(few), sub(few)),
        17 => Type::Pair(sub(few), sub(few)),
        18 => Type::Option(sub(few)),
        19 => Type::List(sub(few)),
        20 => {
            let n = fork(3);
            let mut fields = FieldList::default();
            for _ in 0..n {
                fields.push(Field { name: name1(), r#type: ty(depth - 1, few.min(3)) });
            }
            Type::ByStr20With { type_name: name1(), fields }
        }
        i => leaf(i),
    }
}

fn types(a: &Type, b: &Type) {
    let want = same_type(a, b);
    describe(|| format!("{a:?} and {b:?}: same structure: {want}"));
    check((a == b) == want, 1601);
    check((a != b) == !want, 1602);
    check((b == a) == want, 1603);
    if want {
        reach(1601)
    } else {
        reach(1602)
    }
    observe(want as u64);
}
fn copy(a: &Type) {
    let c = a.clone();
    check(same_type(a, &c), 1604);
    check(c == *a && *a == c, 1605);
}

/// any two shallow types
pub fn q_types1() {
    let a = ty(1, 1);
    let b = ty(1, 1);
    copy(&a);
    types(&a, &b)
}
pub fn q_types2() {
    let a = ty(1, 3);
    let b = ty(1, 3);
    types(&a, &b)
}

/// a path of constructors down to a leaf, the same type again with one place different
fn spine(depth: u32) -> (Type, Type) {
    if depth == 0 {
        return (leaf(fork(LEAVES)), leaf(fork(LEAVES)));
    }
    let (a, b) = spine(depth - 1);
    let (a, b) = (Box::new(a), Box::new(b));
    match fork(11) {
        0 => (Type::Map(a, Box::new(Type::Bool)), Type::Map(b, Box::new(Type::Bool))),
        1 => (Type::Map(Box::new(Type::Bool), a), Type::Map(Box::new(Type::Bool), b)),
        2 => (Type::Pair(a, Box::new(Type::Bool)), Type::Pair(b, Box::new(Type::Bool))),
        3 => (Type::Pair(Box::new(Type::Bool), a), Type::Pair(Box::new(Type::Bool), b)),
        4 => (Type::Option(a), Type::Option(b)),
        5 => (Type::List(a), Type::List(b)),
        // the two halves exchanged
        6 => (Type::Map(a.clone(), b.clone()), Type::Map(b, a)),
        7 => (Type::Pair(a.clone(), b.clone()), Type::Pair(b, a)),
        // different constructors around the same thing
        8 => (Type::Option(a.clone()), Type::List(a)),
        9 => (Type::Map(a.clone(), b.clone()), Type::Pair(a, b)),
        _ => {
            let (n, i) = (fork(3), fork(3));
            let mut f = FieldList::default();
            let mut g = FieldList::default();
            let (x, y) = (name1(), name1());
            for k in 0..=n {
                if k == i.min(n) {
                    f.push(Field { name: x.clone(), r#type: (*a).clone() });
                    g.push(Field { name: y.clone(), r#type: (*b).clone() });
                } else {
                    f.push(Field { name: "a".to_string(), r#type: Type::Bool });
                    g.push(Field { name: "a".to_string(), r#type: Type::Bool });
                }
            }
            let t = name1();
            let u = if fork(2) == 0 { t.clone() } else { name1() };
            (Type::ByStr20With { type_name: t, fields: f }, Type::ByStr20With { type_name: u, fields: g })
        }
    }
}
fn deep(d: u32) {
    let (a, b) = spine(d);
    copy(&a);
    types(&a, &b)
}
pub fn q_deep1() {
    deep(1)
}
pub fn q_deep2() {
    deep(2)
}

fn small(i: u32) -> Type {
    match i {
        0 => Type::Uint32,
        1 => Type::ByStrX(u64_() as usize),
        _ => Type::List(Box::new(Type::Other(name1()))),
    }
}
fn list(max: u32) -> Vec<Field> {
    let n = fork(max + 1);
    let mut v = vec![];
    for _ in 0..n {
        let t = small(fork(3));
        v.push(Field { name: name1(), r#type: t });
    }
    v
}

/// fields and their lists
pub fn q_fields() {
    let a = list(2);
    let b = list(2);
    let want = same_fields(&a, &b);
    describe(|| format!("{a:?} and {b:?}: same structure: {want}"));
    if a.len() == 1 && b.len() == 1 {
        check((a[0] == b[0]) == want, 1610);
        check((a[0] != b[0]) == !want, 1610);
        let c = a[0].clone();
        check(c.name == a[0].name && same_type(&c.r#type, &a[0].r#type), 1611);
    }
    let (x, y) = (FieldList(a), FieldList(b));
    check((x == y) == want, 1612);
    check((x != y) == !want, 1612);
    let c = x.clone();
    check(same_fields(&c.0, &x.0), 1613);
    check(c == x, 1613);
    if want {
        reach(1603)
    }
    observe(want as u64);
}

fn transition() -> Transition {
    let f = FieldList(list(1));
    Transition { name: name1(), params: f }
}
fn trans(max: u32) -> Vec<Transition> {
    let n = fork(max + 1);
    (0..n).map(|_| transition()).collect()
}
fn same_transitions(a: &[Transition], b: &[Transition]) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.name == y.name && same_fields(&x.params.0, &y.params.0))
}
pub fn q_transitions() {
    let a = trans(1);
    let b = trans(2);
    let want = same_transitions(&a, &b);
    describe(|| format!("{a:?} and {b:?}: same structure: {want}"));
    if a.len() == 1 && b.len() == 1 {
        check((a[0] == b[0]) == want, 1614);
        check((a[0] != b[0]) == !want, 1614);
    }
    let (x, y) = (TransitionList(a), TransitionList(b));
    check((x == y) == want, 1615);
    check((x != y) == !want, 1615);
    if want {
        reach(1604)
    }
    observe(want as u64);
}

fn contract() -> Contract {
    let n = name1();
    let p = FieldList(list(1));
    let f = FieldList(list(1));
    let t = TransitionList(if fork(2) == 0 { vec![] } else { vec![Transition { name: name1(), params: FieldList(vec![]) }] });
    Contract { name: n, init_params: p, fields: f, transitions: t }
}
pub fn q_contracts() {
    let a = contract();
    let b = contract();
    let want = same_contract(&a, &b);
    describe(|| format!("{a:?} and {b:?}: same structure: {want}"));
    check((a == b) == want, 1616);
    check((a != b) == !want, 1616);
    if want {
        reach(1605)
    }
    observe(want as u64);
}

/// what is put into a list is what it shows
pub fn q_build() {
    let n = fork(5) as usize;
    let mut names: Vec<String> = vec![];
    let mut types_: Vec<Type> = vec![];
    let mut l = FieldList::default();
    check(l.0.is_empty() && l.is_empty(), 1620);
    for i in 0..n {
        // names can repeat
        let s = name();
        let t = small(fork(3));
        let f = Field::new(&s, t.clone());
        check(f.name == s && same_type(&f.r#type, &t), 1621);
        l.push(f);
        names.push(s);
        types_.push(t);
        check(l.0.len() == i + 1, 1622);
    }
    check(l.len() == n, 1622);
    for (i, f) in l.iter().enumerate() {
        check(f.name == names[i] && same_type(&f.r#type, &types_[i]), 1623);
        check(l[i].name == names[i] && same_type(&l.0[i].r#type, &types_[i]), 1623);
    }
    let tn = name();
    let t = Transition::new(&tn, l.clone());
    check(t.name == tn && same_fields(&t.params.0, &l.0), 1624);
    let w = Transition::new_without_param(&tn);
    check(w.name == tn && w.params.0.is_empty(), 1625);
    let mut tl = TransitionList::default();
    check(tl.0.is_empty() && tl.len() == 0, 1626);
    for i in 0..n {
        tl.push(Transition::new(&names[i], if i == 0 { l.clone() } else { FieldList(vec![]) }));
    }
    check(tl.0.len() == n, 1627);
    for i in 0..n {
        check(tl[i].name == names[i], 1628);
        check(tl[i].params.0.len() == if i == 0 { n } else { 0 }, 1628);
    }
    if n > 1 {
        tl.swap(0, 1);
        check(tl.0[0].name == names[1] && tl.0[1].name == names[0], 1629);
        let x = tl.remove(0);
        check(x.name == names[1] && tl.0.len() == n - 1 && tl.0[0].name == names[0], 1629);
    }
    let c = Contract::default();
    check(c.name.is_empty() && c.init_params.0.is_empty() && c.fields.0.is_empty() && c.transitions.0.is_empty(), 1630);
    let f = Field::default();
    check(f.name.is_empty() && matches!(&f.r#type, Type::Other(s) if s.is_empty()), 1631);
    observe(n as u64);
    reach(1606)
}

const PLACES: u32 = 10;
/// a value with one name in it, at any of the places names can have
fn around(place: u32, s: &str) -> Contract {
    let o = Type::Other(s.to_string());
    let b = || FieldList(vec![Field::new("x", Type::Bool)]);
    let mut c = Contract { name: "N".to_string(), init_params: b(), fields: b(), transitions: TransitionList(vec![Transition::new("t", b()), Transition::new("t", b())]) };
    match place {
        0 => c.name = s.to_string(),
        1 => c.init_params.push(Field::new(s, Type::Bool)),
        2 => c.fields.push(Field::new(s, Type::Bool)),
        3 => c.transitions.0[1].name = s.to_string(),
        4 => c.transitions.0[1].params.push(Field::new(s, Type::Bool)),
        5 => c.init_params.push(Field::new("a", o)),
        6 => c.fields.push(Field::new("a", Type::Map(Box::new(Type::Bool), Box::new(o)))),
        7 => c.transitions.0[0].params.push(Field::new("a", Type::Pair(Box::new(o), Box::new(Type::Bool)))),
        8 => c.fields.push(Field::new("a", Type::ByStr20With { type_name: s.to_string(), fields: b() })),
        _ => c.fields.push(Field::new("a", Type::ByStr20With { type_name: "A".to_string(), fields: FieldList(vec![Field::new(s, Type::Bool)]) })),
    }
    c
}
const LONG: &str = "Abc_dEf01.xyz Q-r\u{e9}\u{f9}\u{2028}  tail of a name that is far longer than any machine word";
/// long names that differ in one place, in length, or not at all, anywhere in a contract
pub fn q_long() {
    let s = LONG.as_bytes();
    let ends: &[usize] = &[1, 2, 7, 8, 9, 16, 17, s.len()];
    let end = ends[fork(ends.len() as u32) as usize];
    let p = fork(PLACES);
    let a = LONG[..end].to_string();
    let mut v = s[..end].to_vec();
    match fork(4) {
        0 => {
            let i = fork(end as u32) as usize;
            assume(v[i] < 128);
            v[i] = choose(128) as u8
        }
        1 => v.push(choose(128) as u8),
        2 => {
            v.pop();
            assume(v.last().map_or(true, |c| *c < 128))
        }
        _ => v.insert(0, choose(128) as u8),
    }
    // only ASCII characters were touched
    let b = unsafe { String::from_utf8_unchecked(v) };
    describe(|| format!("{a:?} and {b:?} in place {p}"));
    let want = a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| x == y);
    let (x, y) = (around(p, &a), around(p, &b));
    check((x == y) == want, 1617);
    check((x != y) == !want, 1617);
    check((x.fields == y.fields) == same_fields(&x.fields.0, &y.fields.0), 1617);
    check((x.transitions == y.transitions) == same_transitions(&x.transitions.0, &y.transitions.0), 1617);
    observe(want as u64);
}
/// lists of many items: two exchanged, one dropped, one repeated, one moved
pub fn q_order() {
    let n = [2usize, 3, 4, 7, 8, 9, 17][fork(7) as usize];
    let item = |i: usize| Field::new(&format!("n{i}"), if i % 2 == 0 { Type::Bool } else { Type::ByStrX(i) });
    let mut l = FieldList::default();
    for i in 0..n {
        l.push(item(i));
        check(l.0.len() == i + 1 && l.0[i].name == format!("n{i}"), 1622);
    }
    let mut m = l.clone();
    let (i, j) = (fork(n as u32) as usize, fork(n as u32) as usize);
    match fork(5) {
        0 => m.0.swap(i, j),
        1 => {
            m.0.remove(i);
        }
        2 => m.0.insert(j, item(i)),
        3 => {
            let x = m.0.remove(i);
            m.0.insert(j, x)
        }
        _ => {
            let t = m[j].r#type.clone();
            m.0[i].r#type = t
        }
    }
    let want = same_fields(&l.0, &m.0);
    describe(|| format!("{l:?} and {m:?}: same structure: {want}"));
    check((l == m) == want, 1618);
    check((l != m) == !want, 1618);
    let t = |l: &FieldList| TransitionList(l.iter().map(|f| Transition::new(&f.name, FieldList(vec![f.clone()]))).collect());
    let (x, y) = (t(&l), t(&m));
    check(x.0.len() == l.0.len() && y.0.len() == m.0.len(), 1627);
    check((x == y) == want, 1618);
    let u = Type::ByStr20With { type_name: "A".to_string(), fields: l.clone() };
    let v = Type::ByStr20With { type_name: "A".to_string(), fields: m.clone() };
    check((u == v) == want, 1618);
    copy(&u);
    observe(want as u64);
}

/// many pushes
pub fn q_many() {
    let n = [33usize, 65, 129, 257, 1025][fork(5) as usize];
    let s = name();
    let same = fork(2) == 0;
    let mut l = FieldList::default();
    let mut tl = TransitionList::default();
    for i in 0..n {
        let f = if same || i % 7 == 3 { Field::new(&s, Type::Bool) } else { Field::new("f", Type::ByStrX(i)) };
        tl.push(Transition::new(&f.name, FieldList(vec![f.clone()])));
        l.push(f);
    }
    check(l.len() == n && tl.len() == n, 1632);
    for i in 0..n {
        let plain = same || i % 7 == 3;
        check(if plain { l[i].name == s && l[i].r#type == Type::Bool } else { l[i].name == "f" && matches!(l[i].r#type, Type::ByStrX(k) if k == i) }, 1633);
        check(tl[i].name == l[i].name && tl[i].params.len() == 1 && same_type(&tl[i].params[0].r#type, &l[i].r#type), 1634);
    }
    let a = l.clone();
    check(a == l && a.len() == n, 1635);
    let mut c = l.clone();
    c.0[n - 1].name.push('x');
    check(c != l, 1636);
    c.0.pop();
    check(c != l, 1636);
    reach(1607)
}

/// types that print alike or nearly so
pub fn q_print() {
    let plain = || {
        vec![Type::Int32, Type::Int64, Type::Int128, Type::Int256, Type::Uint32, Type::Uint64, Type::Uint128, Type::Uint256, Type::String, Type::BNum, Type::Bool,
            Type::ByStr, Type::ByStr20, Type::ByStrX(20), Type::ByStrX(0), Type::ByStrX(2), Type::ByStrX(usize::MAX),
            Type::Map(Box::new(Type::Bool), Box::new(Type::Bool)), Type::Pair(Box::new(Type::Bool), Box::new(Type::Bool)),
            Type::Option(Box::new(Type::Bool)), Type::List(Box::new(Type::Bool)), Type::List(Box::new(Type::ByStr20)), Type::List(Box::new(Type::ByStrX(20))),
            address("", &[]), address("contract", &[]), address("contract", &[("a", "Bool")]), address("contract", &[("a", "Bool, field b: Bool")]),
            address("contract", &[("a", "Bool"), ("b", "Bool")]), address("contract field a: Bool,", &[("b", "Bool")]), address("", &[("a", "Bool")])]
    };
    let mut all = plain();
    for t in plain() {
        all.push(Type::Other(t.to_string()));
    }
    // other spellings of the same text
    for s in ["", "Map Bool Bool", "Pair Bool Bool", "Option Bool", "List Bool", "ByStrX", "ByStr020", "bool", "Bool ", " Bool", "()", "Other"] {
        all.push(Type::Other(s.to_string()));
    }
    let i = fork(all.len() as u32) as usize;
    copy(&all[i]);
    for j in 0..all.len() {
        let want = same_type(&all[i], &all[j]);
        describe(|| format!("{:?} and {:?}", all[i], all[j]));
        check((all[i] == all[j]) == want, 1640);
        check((all[i] != all[j]) == !want, 1640);
        let f = |t: &Type| FieldList(vec![Field { name: "a".to_string(), r#type: t.clone() }]);
        check((f(&all[i]) == f(&all[j])) == want, 1640);
    }
    // a name one symbolic character away from what another type prints
    let s = all[i].to_string();
    let mut v = s.into_bytes();
    if !v.is_empty() {
        let k = [0, v.len() / 2, v.len() - 1][fork(3) as usize];
        v[k] = choose(128) as u8;
    }
    let o = Type::Other(unsafe { String::from_utf8_unchecked(v) });
    let want = same_type(&all[i], &o);
    describe(|| format!("{:?} and {o:?}", all[i]));
    check((all[i] == o) == want, 1641);
    check((o == all[i]) == want, 1641);
    observe(want as u64);
}
fn address(kind: &str, fields: &[(&str, &str)]) -> Type {
    let mut l = FieldList::default();
    for (n, t) in fields {
        l.push(Field { name: n.to_string(), r#type: if *t == "Bool" { Type::Bool } else { Type::Other(t.to_string()) } });
    }
    Type::ByStr20With { type_name: kind.to_string(), fields: l }
}
