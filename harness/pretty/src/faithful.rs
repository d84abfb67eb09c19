//! An independent rendering of values, in the notation facet-pretty documents by its tests.
use super::*;

type Max = Option<usize>;
/// Lines as facet-pretty writes them: (depth, text)
struct Doc {
    text: String,
    indent: usize,
}
impl Doc {
    fn pad(&mut self, d: usize) {
        for _ in 0..d * self.indent {
            self.text.push(' ');
        }
    }
}
trait Ref: Facet + 'static {
    fn name() -> String;
    fn any() -> Self;
    fn render(&self, d: usize, max: Max, o: &mut Doc);
}
fn value<T: Ref>(v: &T, d: usize, max: Max, o: &mut Doc) {
    if max.is_some_and(|m| d > m) {
        o.text += "[...";
    } else {
        v.render(d, max, o)
    }
}
macro_rules! scalar {
    ($($t:ty = $any:expr, $name:expr;)*) => { $( impl Ref for $t {
        fn name() -> String { $name.into() }
        fn any() -> Self { $any }
        fn render(&self, _d: usize, _max: Max, o: &mut Doc) { write!(o.text, "{}", self).unwrap() }
    } )* };
}
scalar! {
    u8 = any_u8(), "u8"; i8 = any_u8() as i8, "i8"; u16 = any_u16(), "u16"; bool = any_bool(), "bool"; char = any_char(), "char"; String = any_string(1), "String";
    u64 = *[0, 1, 10, u64::MAX].get(choose(4) as usize).unwrap(), "u64"; &'static str = if any_bool() { "yes" } else { "" }, "&str";
    f64 = *[0.0, -1.5, 1e300, f64::NAN].get(choose(4) as usize).unwrap(), "f64";
}
impl Ref for () {
    fn name() -> String {
        "()".into()
    }
    fn any() {}
    fn render(&self, _d: usize, _max: Max, o: &mut Doc) {
        o.text += "()"
    }
}
fn items<'a, T: Ref>(name: String, it: impl Iterator<Item = &'a T>, d: usize, max: Max, o: &mut Doc) {
    o.text += &name;
    o.text += " [\n";
    for x in it {
        o.pad(d + 1);
        value(x, d + 1, max, o);
        o.text += ",\n";
    }
    o.pad(d);
    o.text += "]";
}
macro_rules! list {
    ($($t:ty),*) => { $( impl Ref for Vec<$t> {
        fn name() -> String { format!("Vec<{}>", <$t>::name()) }
        fn any() -> Self { (0..choose(3)).map(|_| <$t>::any()).collect() }
        fn render(&self, d: usize, max: Max, o: &mut Doc) { items(Self::name(), self.iter(), d, max, o) }
    } )* };
}
list!(u16, String, bool, (), Nil, Point, Kind, Vec<u16>, Option<u8>, (u8, bool), Vec<u8>, Documented);
impl Ref for Vec<u8> {
    fn name() -> String {
        "Vec<u8>".into()
    }
    fn any() -> Self {
        (0..choose(3)).map(|_| [0x00, 0x0f, 0xa9, 0xff][concretize(choose(4) as u64) as usize]).collect()
    }
    fn render(&self, d: usize, _max: Max, o: &mut Doc) {
        o.text += "Vec<u8>\n";
        for (i, b) in self.iter().enumerate() {
            if i > 0 && i % 16 == 0 {
                o.text += "\n";
                o.pad(d + 1);
            }
            let h = |n: u8| if n < 10 { b'0' + n } else { b'a' + n - 10 } as char;
            o.text.push(h(b >> 4));
            o.text.push(h(b & 15));
            o.text.push(' ');
        }
    }
}
impl<T: Ref> Ref for Option<T> {
    fn name() -> String {
        format!("Option<{}>", T::name())
    }
    fn any() -> Self {
        if any_bool() {
            Some(T::any())
        } else {
            None
        }
    }
    fn render(&self, d: usize, max: Max, o: &mut Doc) {
        o.text += &Self::name();
        match self {
            None => o.text += "::None",
            Some(x) => {
                o.text += "::Some(";
                value(x, d, max, o);
                o.text += ")";
            }
        }
    }
}
impl Ref for BTreeMap<u8, u8> {
    fn name() -> String {
        "BTreeMap<u8, u8>".into()
    }
    fn any() -> Self {
        (0..choose(2)).map(|_| (any_u8(), any_u8())).collect()
    }
    fn render(&self, d: usize, _max: Max, o: &mut Doc) {
        o.text += &Self::name();
        o.text += " {\n";
        o.pad(d + 1);
        o.text += "/* Map contents */\n";
        o.pad(d);
        o.text += "}";
    }
}
/// fields of a struct or a struct variant, one a line
macro_rules! fields {
    ($d:ident $max:ident $o:ident $open:expr, $close:expr, [$($n:expr => $x:expr),*]) => {{
        $o.text += $open;
        $o.text += "\n";
        $( $o.pad($d + 1); $o.text += $n; value($x, $d + 1, $max, $o); $o.text += ",\n"; )*
        $o.pad($d);
        $o.text += $close;
    }};
}
macro_rules! tuple {
    ($($name:literal ($($t:ident $i:tt),*) $n:literal;)*) => { $(
        impl<$($t: Ref),*> Ref for ($($t,)*) {
            fn name() -> String {
                let mut s = "(".to_string();
                $( if $i > 0 { s += ", "; } s += &$t::name(); )*
                if $n == 1 { s += ","; }
                s + ")"
            }
            fn any() -> Self { ($($t::any(),)*) }
            fn render(&self, d: usize, max: Max, o: &mut Doc) {
                o.text += &Self::name();
                fields!(d max o " {", "}", [$( concat!(stringify!($i), ": ") => &self.$i ),*])
            }
        }
    )* };
}
tuple! { "1" (A 0) 1; "2" (A 0, B 1) 2; "3" (A 0, B 1, C 2) 3; }
#[derive(Facet)]
struct Nil;
impl Ref for Nil {
    fn name() -> String {
        "Nil".into()
    }
    fn any() -> Self {
        Nil
    }
    fn render(&self, _d: usize, _max: Max, o: &mut Doc) {
        o.text += "Nil {}";
    }
}
#[derive(Facet)]
struct Point {
    x: u8,
    y: bool,
}
impl Ref for Point {
    fn name() -> String {
        "Point".into()
    }
    fn any() -> Self {
        Point { x: any_u8(), y: any_bool() }
    }
    fn render(&self, d: usize, max: Max, o: &mut Doc) {
        o.text += "Point";
        fields!(d max o " {", "}", ["x: " => &self.x, "y: " => &self.y])
    }
}
#[derive(Facet)]
#[repr(u8)]
enum Kind {
    Unit,
    One(u8),
    Two(bool, String),
    St { a: u8, b: Option<bool> },
    Nested(Point),
}
impl Ref for Kind {
    fn name() -> String {
        "Kind".into()
    }
    fn any() -> Self {
        match choose(5) {
            0 => Kind::Unit,
            1 => Kind::One(any_u8()),
            2 => Kind::Two(any_bool(), any_string(1)),
            3 => Kind::St { a: any_u8(), b: Ref::any() },
            _ => Kind::Nested(Ref::any()),
        }
    }
    fn render(&self, d: usize, max: Max, o: &mut Doc) {
        o.text += "Kind::";
        match self {
            Kind::Unit => o.text += "Unit",
            Kind::One(a) => fields!(d max o "One(", ")", ["" => a]),
            Kind::Two(a, b) => fields!(d max o "Two(", ")", ["" => a, "" => b]),
            Kind::St { a, b } => fields!(d max o "St {", "}", ["a: " => a, "b: " => b]),
            Kind::Nested(a) => fields!(d max o "Nested(", ")", ["" => a]),
        }
    }
}
/// About this type
#[derive(Facet)]
struct Documented {
    /// First line
    /// second line
    a: u8,
    b: u8,
    /// Last
    c: Point,
}
impl Ref for Documented {
    fn name() -> String {
        "Documented".into()
    }
    fn any() -> Self {
        Documented { a: any_u8(), b: 7, c: Point { x: 1, y: any_bool() } }
    }
    fn render(&self, d: usize, max: Max, o: &mut Doc) {
        o.text += "/// About this type\nDocumented {\n";
        o.pad(d + 1);
        o.text += "/// First line\n";
        o.pad(d + 1);
        o.text += "/// second line\n";
        o.pad(d + 1);
        o.text += "a: ";
        value(&self.a, d + 1, max, o);
        o.text += ",\n";
        o.pad(d + 1);
        o.text += "b: ";
        value(&self.b, d + 1, max, o);
        o.text += ",\n\n";
        o.pad(d + 1);
        o.text += "/// Last\n";
        o.pad(d + 1);
        o.text += "c: ";
        value(&self.c, d + 1, max, o);
        o.text += ",\n";
        o.pad(d);
        o.text += "}";
    }
}
/// About the enum
#[derive(Facet)]
#[repr(C)]
enum DocEnum {
    /// About A
    A,
    /// About B
    B {
        /// About x
        x: u8,
        y: u8,
    },
    C(
        /// About the field
        u8,
    ),
}
impl Ref for DocEnum {
    fn name() -> String {
        "DocEnum".into()
    }
    fn any() -> Self {
        match choose(3) {
            0 => DocEnum::A,
            1 => DocEnum::B { x: any_u8(), y: 1 },
            _ => DocEnum::C(any_u8()),
        }
    }
    fn render(&self, d: usize, max: Max, o: &mut Doc) {
        o.text += "/// About the enum\n";
        match self {
            DocEnum::A => o.text += "/// About A\nDocEnum::A",
            DocEnum::B { x, y } => {
                o.text += "/// About B\nDocEnum::B {\n";
                o.pad(d + 1);
                o.text += "/// About x\n";
                o.pad(d + 1);
                o.text += "x: ";
                value(x, d + 1, max, o);
                o.text += ",\n";
                o.pad(d + 1);
                o.text += "y: ";
                value(y, d + 1, max, o);
                o.text += ",\n";
                o.pad(d);
                o.text += "}";
            }
            DocEnum::C(x) => {
                o.text += "DocEnum::C(\n";
                o.pad(d + 1);
                o.text += "/// About the field\n";
                o.pad(d + 1);
                value(x, d + 1, max, o);
                o.text += ",\n";
                o.pad(d);
                o.text += ")";
            }
        }
    }
}
#[derive(Facet)]
struct Deepest {
    p: Point,
    l: Vec<u16>,
    k: Kind,
    o: Option<Point>,
    n: Nil,
    t: (u8, bool),
}
impl Ref for Deepest {
    fn name() -> String {
        "Deepest".into()
    }
    fn any() -> Self {
        Deepest { p: Ref::any(), l: vec![3], k: Kind::St { a: 1, b: Some(any_bool()) }, o: Ref::any(), n: Nil, t: (1, true) }
    }
    fn render(&self, d: usize, max: Max, o: &mut Doc) {
        o.text += "Deepest";
        fields!(d max o " {", "}", ["p: " => &self.p, "l: " => &self.l, "k: " => &self.k, "o: " => &self.o, "n: " => &self.n, "t: " => &self.t])
    }
}
// Zero-sized values at several depths share an address
#[derive(Facet)]
struct Zero {
    u: (),
    m: ZMid,
}
#[derive(Facet)]
struct ZMid {
    i: ZIn,
}
#[derive(Facet)]
struct ZIn {
    n: Nil,
    u: (),
    l: Vec<()>,
}
impl Ref for Zero {
    fn name() -> String {
        "Zero".into()
    }
    fn any() -> Self {
        Zero { u: (), m: ZMid { i: ZIn { n: Nil, u: (), l: Ref::any() } } }
    }
    fn render(&self, d: usize, max: Max, o: &mut Doc) {
        o.text += "Zero";
        fields!(d max o " {", "}", ["u: " => &self.u, "m: " => &self.m])
    }
}
impl Ref for ZMid {
    fn name() -> String {
        "ZMid".into()
    }
    fn any() -> Self {
        unreachable!()
    }
    fn render(&self, d: usize, max: Max, o: &mut Doc) {
        o.text += "ZMid";
        fields!(d max o " {", "}", ["i: " => &self.i])
    }
}
impl Ref for ZIn {
    fn name() -> String {
        "ZIn".into()
    }
    fn any() -> Self {
        unreachable!()
    }
    fn render(&self, d: usize, max: Max, o: &mut Doc) {
        o.text += "ZIn";
        fields!(d max o " {", "}", ["n: " => &self.n, "u: " => &self.u, "l: " => &self.l])
    }
}

/// The text without blanks: the layout is checked apart
fn squeeze(s: &str) -> Vec<u8> {
    s.bytes().filter(|b| *b != b' ' && *b != b'\n').collect()
}
/// The text without colours, and whether every colour is switched off in the end
fn uncolour(s: &str) -> (String, bool) {
    let mut o = String::new();
    let mut on = false;
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\x1b' {
            o.push(c);
            continue;
        }
        let mut n = String::new();
        for c in it.by_ref() {
            if c == 'm' {
                break;
            }
            n.push(c);
        }
        on = n != "[0";
    }
    (o, on)
}
fn shows<T: Ref>(max: Max) {
    opts(LEAK_OK);
    let v = T::any();
    let mut o = Doc { text: String::new(), indent: 2 };
    value(&v, 0, max, &mut o);
    let printer = |colors: bool| {
        let p = PrettyPrinter::new().with_colors(colors);
        match max {
            Some(m) => p.with_max_depth(m),
            None => p,
        }
    };
    let plain = printer(false).format(&v);
    let mut want = squeeze(&o.text);
    let mut got = squeeze(&plain);
    if max.is_some() {
        let fix = |v: &Vec<u8>| String::from_utf8_lossy(v).replace("[...]", "[...").into_bytes();
        got = fix(&got);
        want = fix(&want);
    }
    check_eq_bytes(&got, &want, "another text is shown than the value's");
    if max.is_none() {
        let colored = printer(true).format(&v);
        let (text, on) = uncolour(&colored);
        check_eq_bytes(text.as_bytes(), plain.as_bytes(), "colours change the text");
        check(!on, "a colour is left switched on");
        check(v.pretty_with(printer(false)).to_string() == plain, "pretty_with shows another text");
        check(printer(false).format_peek(Peek::new(&v)) == plain, "format_peek shows another text");
        if !T::name().contains("Vec<u8>") {
            for indent in [0, 2, 5] {
                o.text.clear();
                o.indent = indent;
                value(&v, 0, max, &mut o);
                let got = PrettyPrinter::new().with_colors(false).with_indent_size(indent).format(&v);
                check_eq_bytes(got.as_bytes(), o.text.as_bytes(), "lines are not indented by their depth");
            }
        }
    }
    out(plain.as_bytes());
    witness(0);
}
fn run(max: Max) {
    macro_rules! go {
        ($($i:literal $t:ty;)*) => { match param(0) { $( $i => shows::<$t>(max), )* _ => {} } };
    }
    go! {
        0 u8; 1 i8; 2 u16; 3 bool; 4 char; 5 String; 6 u64; 7 &'static str; 8 f64; 9 (); 10 Nil; 11 Point; 12 Kind; 13 Documented; 14 DocEnum; 15 Deepest; 16 Zero;
        17 Vec<u16>; 18 Vec<String>; 19 Vec<()>; 20 Vec<Nil>; 21 Vec<Point>; 22 Vec<Kind>; 23 Vec<Vec<u16>>; 24 Vec<Option<u8>>; 25 Vec<(u8, bool)>; 26 Vec<u8>; 27 Vec<Vec<u8>>;
        28 Option<u8>; 29 Option<Option<String>>; 30 Option<Point>; 31 Option<Vec<u16>>; 32 Option<Kind>; 33 (u8,); 34 (u8, String); 35 (Point, u8, Vec<u16>); 36 BTreeMap<u8, u8>; 37 (BTreeMap<u8, u8>, u8);
        38 (Vec<u8>, u8); 39 (u8, Vec<u8>, u8); 40 Vec<Documented>; 41 Option<DocEnum>;
    }
}
#[no_mangle]
pub extern "C" fn pretty() {
    run(None)
}
#[no_mangle]
pub extern "C" fn pretty_depth() {
    run(Some(param(1) as usize))
}
