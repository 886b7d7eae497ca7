//! Values and names that mean something: literals like 0, 1 or "", the names of the core library.
//! A parser that simplifies, folds or treats them apart gives another tree than the text denotes.
//!
//! In the templates `@` stands for any special value, `$` for the one before, `^` for any known
//! function, `~` for any known operator, `%` for the one before, `&` for a free name, `*` for any
//! special type, `?` for the one before, `#` for a module of the core library, `;` for the one before, a backquote for an exported item.

use super::gen::*;
use super::lib_::*;
use super::sym::*;
use super::ty::*;

const VALUE: &[&str] = &[
    "0", "1", "-1", "2", "10", "0.0", "1.0", "0.5", "\"\"", "\"\"\"\"\"\"", "\"a\"", "\" \"", "'a'", "' '", "()", "[]", "{}", "[ 0 ]", "[ [] ]", "True",
    "False", "Nothing", "(Just a)", "identity", "not", "(+)", "(::)", ".a", "a.a", "Basics.True", "Dict.empty", "(\\a -> a)", "(\\_ -> ())",
    "(not True)", "{ a = a }", "(a, a)", "(f 0)", "-0", "00", "'\\x00'",
];
const PAT: &[&str] = &[
    "0", "1", "-1", "0.0", "\"\"", "'a'", "()", "[]", "{}", "_", "True", "False", "Nothing", "(Just a)", "(Just _)", "(a :: b)", "(a, _)",
    "{ a }", "[ a ]", "(a as b)", "(Ok a)", "Basics.True",
];
const FUNC: &[&str] = &[
    "identity", "always", "not", "negate", "abs", "toString", "toFloat", "flip", "curry", "fst", "max", "Just", "Ok", "List.map", "List.reverse",
    "String.append", "String.fromInt", "Basics.identity", "Debug.log", "Debug.crash", "text", "main", "xor", "mod", "rem", "(+)", "(::)",
    "(\\a -> a)", "(f 0)", "(<|)",
];
const OPER: &[&str] = &[
    "+", "-", "*", "/", "//", "%", "^", "++", "::", "&&", "||", "==", "/=", "<", ">", "<=", ">=", "<|", "|>", "<<", ">>", "|.", "|=", "</>", "as", "$", "!",
    "<$>", "<*>", "=>", "?",
];
const TYPE: &[&str] = &[
    "Int", "Float", "Bool", "String", "Char", "()", "{}", "(List Int)", "(Maybe a)", "(Result String a)", "a", "number", "comparable", "appendable",
    "(Cmd msg)", "(Html.Html Msg)", "(Html Never)", "{ a : Int }", "{ r | a : Int }", "(Int, Int)", "(a -> a)", "(Int -> Bool -> a)",
    "(List (List a))", "Basics.Int", "(Platform.Program Never)", "(Task x a)", "((), ())", "(List ())", "{ a : {} }",
];
const MODULE: &[&str] = &[
    "Main", "Basics", "List", "Maybe", "Result", "String", "Char", "Tuple", "Debug", "Platform", "Platform.Cmd", "Platform.Sub", "Native.List", "Html",
    "Html.Attributes", "Json.Decode", "Test", "Prelude", "Native.Scheduler", "Kernel.List",
];
const ITEM: &[&str] = &[
    "main", "view", "update", "init", "subscriptions", "Msg", "Msg(..)", "Model", "Maybe(Just, Nothing)", "Bool(True, False)", "(|>)", "(::)", "(..)",
    "identity", "toString", "Html", "Cmd", "List", "map", "a", "A", "A()",
];

fn any(v: &[&'static str]) -> &'static str {
    v[pick(v.len() as u32) as usize]
}
fn fill(t: &str, b: &mut B) {
    let (mut v, mut o, mut y, mut m) = ("0", "+", "Int", "Main");
    for &c in t.as_bytes() {
        match c {
            b'@' => {
                v = any(VALUE);
                b.s(v)
            }
            b'$' => b.s(v),
            b'^' => b.s(any(FUNC)),
            b'~' => {
                o = any(OPER);
                b.s(o)
            }
            b'%' => b.s(o),
            b'&' => {
                b.sym(SAFE);
            }
            b'!' => b.s(any(PAT)),
            b'*' => {
                y = any(TYPE);
                b.s(y)
            }
            b'?' => b.s(y),
            b'#' => {
                m = any(MODULE);
                b.s(m)
            }
            b';' => b.s(m),
            b'`' => b.s(any(ITEM)),
            _ => b.t.push(c),
        }
    }
}
fn run(v: &[&str]) {
    let mut b = B::new("");
    fill(v[pick(v.len() as u32) as usize], &mut b);
    b.s("\n");
    agree(&b.t);
}

/// numbers of chosen digits: the lengths at which a number no longer fits a type, and the values
/// at which one is rounded or printed in another way
fn digits() {
    const N: [usize; 22] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 19, 20, 21, 22, 38, 39, 40];
    const M: [usize; 10] = [0, 1, 2, 3, 6, 7, 15, 16, 17, 21];
    fn run(b: &mut B, n: usize, k: u32) {
        for i in 0..n {
            b.t.push(match k {
                0 => b'0',
                1 => b'9',
                2 => b'0' + (i as u8 + 1) % 10,
                3 => b'0' + (i == 0) as u8,
                _ => b'0' + (i + 1 == n) as u8,
            })
        }
    }
    let mut b = B::new("x = ");
    let p = ["", "-", "+"][pick(3) as usize];
    b.s(p);
    run(&mut b, N[pick(22) as usize], pick(5));
    let m = M[pick(10) as usize];
    if m > 0 {
        b.s(".");
        run(&mut b, m, pick(5))
    }
    let q = b.t[4..].to_vec();
    b.s("\n");
    let e = if m == 0 { int(text(&q)) } else { Expression::Float(text(&q).to_string()) };
    if judged(&b.t) {
        return;
    }
    expect(&b.t, &[fun_s("x", vec![], e)])
}

static mut TWO: bool = true;
/// the texts of all properties
fn all_breaks(two: bool) {
    const ALL: &[extern "C-unwind" fn()] = &[c06_breaks, c08_breaks, c09_breaks, c10_breaks, c11_breaks, c12_breaks, c13_breaks, c14_breaks, c15_breaks, c16_breaks, c19_breaks, c20_breaks, c21_breaks, c22_breaks, c23_breaks, c24_breaks, c25_breaks, c26_breaks, c27_breaks];
    unsafe { TWO = two }
    ALL[pick(ALL.len() as u32) as usize]()
}
/// A text with a line break, at any column, or a comment, in any of its gaps, and in a second one:
/// a blank in the template is a gap, `~` one where nothing stands, `^` and `%` are line breaks to columns 2 and 4.
fn breaks(v: &[&str]) {
    let two = unsafe { TWO };
    const FILL: [&str; 8] = ["\n", "\n ", "\n  ", "\n   ", "\n     ", "", "\n\n    ", "--c\n   "];
    let t = v[pick(v.len() as u32) as usize].as_bytes();
    let gaps: Vec<usize> = (0..t.len()).filter(|i| b"~^%".contains(&t[*i]) || t[*i] == b' ' && t[i - 1] != b'\n' && t[i - 1] != b' ').collect();
    let i = pick(gaps.len() as u32) as usize;
    let j = if two { pick(gaps.len() as u32) as usize } else { i };
    assume(i <= j);
    let (f, g) = (FILL[pick(8) as usize], if i == j { "" } else { FILL[pick(8) as usize] });
    let mut b = B::new("");
    for (k, &c) in t.iter().enumerate() {
        if k == gaps[i] {
            b.s(f)
        } else if k == gaps[j] {
            b.s(g)
        } else if c == b'&' {
            b.sym(SAFE);
        } else if c == b'^' {
            b.s("\n  ")
        } else if c == b'%' {
            b.s("\n    ")
        } else if c != b'~' {
            b.t.push(c)
        }
    }
    b.s("\n");
    agree(&b.t);
}

entries! {
    c17_breaks => all_breaks(false);
    c17_deepbreaks => all_breaks(true);
    c06_breaks => breaks(&["x =\n  ~f \"a\" & ++ \"b\"~", "x =\n  ~[ \"a\"~, ~\"\"\"b\"\"\" ]"]);
    c08_breaks => breaks(&["x =\n  ~f & ( ~g a~ ) 1", "x = & b c d", "x =\n  ~f~ a.b [~ a b~ ] { c = d e }"]);
    c09_breaks => breaks(&["x =\n  ~a + & - c * d", "x = & ~+ b ~- f ~c", "x =\n  ~(~a ~+ ~b ~)~ |> f a"]);
    c10_breaks => breaks(&["x =\n  ~[ & , ~b~, c ~]", "x =\n  ~( & , ~b~, c ~)", "x =\n  ~(~(~& a~)~, ~[~(~b~)~]~)", "x = [ ~[ ~& ]~, [] ]", "x = ( (a, & )~, [ b ] )"]);
    c11_breaks => breaks(&["x =\n  ~{ & = 1 ~, b ~= ~2 ~}", "x =\n  ~{ a | & = 1 ~, b ~= ~2 ~}", "x =\n  ~{ & ~, ~b ~}", "x = { a = { ~b | c = &~ }~ , d = {~} }", "x = f { a | b = { c = & } } 1"]);
    c12_breaks => breaks(&["x =\n  ~a~.~b~.~c &", "x =\n  ~A~.~B~.~c~.~d &", "x = f ~.~a & .b"]);
    c13_breaks => breaks(&["x =\n  ~if a & then b c else d & ~", "x =^if a then%b^else if (c) then%[ & ]^else%d", "x =\n  ~if a then b else if & then c else d", "x = if a == & then b + c else [ d ]"]);
    c14_breaks => breaks(&["x =\n  ~\\~a & -> b c", "x =\n  ~f (~\\a -> \\b -> & ~)", "x = \\{~a~, b } ( c~, & ) -> [ a ]"]);
    c15_breaks => breaks(&["x =\n  ~let a = & in b c", "x =\n  ~let f a = & b\n      c = d in f c", "x =^let%a = 1%f & = 2^in a", "x =^let%a : & %a = [ b ]%c =\n      d^in (e)", "x =\n let\n  a : B -> & \n  a = 1\n  ( b~, c ) = d\n in a", "x =\n  let\n    [ a~, & ] = let b = c in d\n  in a"]);
    c16_breaks => breaks(&["x =\n  ~case a & of b c -> d e", "x =^case a of%b & -> c%d -> e f ", "x =^case a of%1 ->\n      [ & ]%( b ) -> \"c\"%_ -> d", "x =\n case a of\n  b -> case & of\n   c -> d\n   e -> f\n  g -> h ", "x =\n case ( a~, & ) of\n  [ b~, c ] -> if b then c else d\n  _ -> e"]);
    c19_breaks => breaks(&["f : A -> & -> B\nf = a", "f :\n  A & B -> ( C~, ~D ) -> E\nf = a", "f : {~ a : B &~, ~c : D ~}\nf = a", "f : (~A & -> ~B~) -> C\nf = a", "f : { a | b : & , c : D }\nf = a", "f : A.B ( C~ & ) { d : E~}\nf = a", "f :^A { a | b : & } {~ c : D ~} e\nf = a", "f :^A (~B -> &~) (~C~, ~D~) -> {~}\nf = a", "f :^A { a : (~B & ) , b : {~ c : D~} }\nf = a"]);
    c20_breaks => breaks(&["type A & = B c | D", "type A = B ( C ~ &~ ) { d : E~ } | F", "type alias A & = { b : C~, d : E }", "type A = B { a | b : & } ( C~ -> D ) | E", "type alias A =\n  B { a | b : & }", "type alias A = {~ b : {~ c : & ~}~, d : (~E~, F~) ~}", "type alias A = B -> & -> ( C~, D )", "type A =\n  B & C\n  | D E"]);
    c21_breaks => breaks(&["module A~.~B exposing ( & ~, ~b ~)", "port module A exposing (~C~(~D, E~)~, (~+~) )", "effect module A where { a = B, c = D } exposing ( ..~ )", "module A exposing (~ C~(~..~)~, & )\nimport B"]);
    c22_breaks => breaks(&["import A~.~B as C exposing ( & ~, ~b ~)", "import A exposing (~C~(~D, E~)~, (~+~) )\nimport B", "import A as B\nimport C exposing ( .. )"]);
    c23_breaks => breaks(&["infixl ~5 ~+\nx = &", "infix 4 &\ninfixr 5 ++"]);
    c24_breaks => breaks(&["~-- a\nx = & ~-- b\n~", "~{~-~ & ~-~}~\nx = 1", "x = 1~\n~-- &\n~{- c -}~\ny = 2"]);
    c25_breaks => breaks(&["port & : A -> B c", "port a & = b c", "port a :^A & ( B~, C ) -> { d : E }", "port a =^b & ( c~, d )", "port a : ( B~ -> C~ ) -> & \nport b : {~ c : D ~}\n~"]);
    c26_breaks => breaks(&["f a & = b c", "f : A -> &\nf (~a~, b ) = c d", "f :^A & ( B~, C ) -> { d : E }\nf = a", "(~+~) a & = [ a ]", "f {~a~} 1 \"b\" = &\n~g c = d ", "f\n : A\nf & = a"]);
    c27_breaks => breaks(&["~x = &~\n~y = a b~\n~", "~import A~\n~x = &~\n~type B = C~", "f : A~\n~f = &~\n~port a : B~"]);
    c05_digits => digits();
    c05_special => run(&["x = & ~ @", "x = @ ~ &", "x = f @ @", "x = [ @, @ ]"]);
    c06_special => run(&["x = & ++ \"\" ++ &", "x = \"\" ++ @", "x = @ ++ \"\"", "x = \"a\" ++ \"b\" ++ @", "x = \"a\" ~ \"b\"", "x = \"%s\" % @", "x = ^ \"\"", "x = ^ \"a\" \"b\""]);
    c07_special => run(&["x = ^ 'a'", "x = 'a' ~ @", "x = 'a' ~ 'a'", "x = @ ~ ' '", "x = [ 'a', @, 'a' ]"]);
    c08_special => run(&["x = ^ @", "x = & @ @", "x = ^ (^ &)", "x = ^ ^ @", "x = ^ @ $", "x = ^ & @", "x = (^ &) @", "x = (^) @", "x = (@) @"]);
    c09_special => run(&[
        "x = @ ~ $", "x = @ ~ 0", "x = 1 ~ @", "x = & ~ @ % &", "x = & ~ & % @", "x = @ ~ & % &", "x = @ ~ $ % $", "x = & ~ & ~ &", "x = & ~ (& ~ &)", "x = (& ~ &) ~ &", "x = (&) ~ (&)",
        "x = ^ & ~ ^ &", "x = & ~ ^ <| &", "x = ^ <| @", "x = @ |> ^", "x = & |> ^ % ^", "x = & ~ @ % $ % &", "x = & ~ &\n  ~ & % &",
    ]);
    c09_deepspecial => run(&["x = @ ~ @", "x = & ~ @ ~ &", "x = & ~ ^ <| @", "x = @ |> ^ ~ &", "x = (@ ~ &) ~ @"]);
    c10_special => run(&["x = [ @, @ ]", "x = ( @, @ )", "x = ( @ )", "x = (( @ ))", "x = @ :: @ :: []", "x = [ @ ] ++ [ @ ]", "x = [ @, $, $ ]", "x = ( $, @, $ )", "x = [[ @ ], [ $ ]]"]);
    c11_special => run(&["x = { a = @, b = @ }", "x = { a | b = @, c = @ }", "x = { a = $, b = @, c = $ }", "x = { a = a, b = @ }", "x = { a | a = @ }", "x = { a | b = a.b, c = @ }", "x = { f = ^, g = ^ }", "x = { a = \\& -> @ }"]);
    c12_special => run(&["x = #.f @", "x = #.F", "x = ^ .a @", "x = @ ~ a.b.c", "x = #.& ~ #.&", "x = List.map .a @", "x = a.main ~ @"]);
    c13_special => run(&[
        "x = if @ then @ else &", "x = if & then @ else @", "x = if @ then & else @", "x = if & ~ @ then & else &", "x = if not @ then & else @", "x = if ^ & then @ else $",
        "x = if & then @ else if & then $ else $", "x = if & then & else if @ then & else @", "x = if (@) then (@) else &",
    ]);
    c14_special => run(&["x = \\! -> @", "x = \\! ! -> a", "x = \\a -> ^ a", "x = \\a b -> ^ a b", "x = \\a b -> a ~ b", "x = \\& -> \\! -> @", "x = \\a -> \\b -> ^ a b", "x = \\() -> ^ @", "x = \\! -> case a of ! -> @"]);
    c15_special => run(&["x = let & = @ in @", "x = let a = @ in a", "x =\n  let\n    ! = @\n  in @", "x =\n  let\n    _ = ^ @\n  in a", "x =\n  let\n    a = @\n    b = $\n  in a ~ b", "x =\n  let\n    f ! = @\n  in f $",
        "x =\n  let\n    a : *\n    a = @\n  in a", "x =\n  let\n    a = let b = @ in b\n  in @", "x = let a = ^ in let b = ^ in a"]);
    c16_special => run(&["x = case @ of\n  ! -> $", "x = case a of\n  ! -> a\n  ! -> a", "x = case & of\n  ! -> @\n  _ -> a", "x = case & of\n  True -> @\n  False -> @", "x = case & of\n  True -> False\n  False -> @", "x = case ^ a of\n  ! -> $\n  _ -> @", "x = case a of\n  _ -> @\n  ! -> $\n  _ -> $", "x = case (@, @) of\n  (a, b) -> a"]);
    c19_special => run(&["f : *\nf = a", "f : * -> *\nf = a", "f : * -> * -> ?\nf = a", "f : (* -> *) -> a\nf = a", "f : ( *, * )\nf = a", "f : { a : *, b : * }\nf = a", "f : { r | a : * }\nf = a", "main : Program *\nmain = a", "^ : ?\nf = a", "f : ? -> A.B * *\nf = a", "f : Dict.Dict * *\nf = a", "f : Result *\nf = a"]);
    c20_special => run(&["type A = B * *", "type A a = B * | C ?", "type alias A = *", "type alias A a b = * -> *", "type Bool = True | False", "type List a = Nil | Cons a *", "type A = A | A *", "type alias Msg = *", "type Msg = None | Some * ? *", "type alias Model = { a : *, b : * }", "type Never = Never Never"]);
    c21_special => run(&["module # exposing (`)", "module # exposing (`, `)", "module # exposing ( .. )", "port module # exposing (`)", "effect module # where { command = MyCmd } exposing (`)", "effect module # where { subscription = MySub, command = MyCmd } exposing ( `, ` )",
        "module # exposing (..)\nimport ;", "module # exposing (`)\nmain = @"]);
    c22_special => run(&["import #", "import # as #", "import # exposing (`)", "import # exposing (`, `)", "import # as ; exposing (`)", "import # as A exposing (..)", "import #\nimport #", "import #\nimport ; as #", "import # exposing (`)\nimport ; exposing (`)"]);
    c23_special => run(&["infixl 9 ~", "infixr 0 ~", "infix 4 ~", "infixl 7 ~\ninfixr 7 %", "infixr 5 ~\ninfixr 5 ~", "infixl 10 ~", "infixl 9 ~\nx = a % b ~ c", "infixl 09 ^", "infix 1 ^"]);
    c24_special => run(&["-- TODO ^\nx = @", "{-| ^ -}\nx = @", "{-| #\ndocs ^\n-}\nmodule ; exposing (`)", "--x = @\nx = @", "{--}\nx = @\n--}", "--| @ -}", "{- @ -}\n-- $", "-- eslint-disable @", "{-\n@\n-}"]);
    c25_special => run(&["port ^ : *", "port main : * -> Cmd msg", "port & : ( * -> msg ) -> Sub msg", "port f : * -> *", "port f : () -> ?", "port f = @", "port & ! = @", "port f : *\nport f : ?"]);
    c26_special => run(&["f ! = @", "f ! ! = a", "main = @", "main =\n  ^ @", "f a = ^ a", "f a b = ^ a b", "x = x", "f : *\nf = @", "f : *\nf ! = @", "(~) a b = @", "^ = @", "(~) = (%)", "f ! = g @", "main : *\nmain = ^ <| @", "init = ( @, Cmd.none )"]);
    c27_special => run(&["x = @\nx = $", "x = @\n\n\ny = $", "main = @\n\nmain = @", "f : *\nf : ?\nx = @", "type A = A *\ntype A = A ?", "x = @\n--\n--\n", "import #\nimport #\nx = @", "f : *\n\ng : ?\n\nf = @"]);
}
