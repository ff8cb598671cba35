// Generated by tools/gen_types.py. Do not edit.
use mirror_mirror::key_path;
use mirror_mirror::key_path::{Key, KeyPath};

#[rustfmt::skip]
pub fn macro_paths() -> Vec<(&'static str, KeyPath, Vec<Key>)> {
    let n = 7_u8;
    vec![
        ("", key_path!(), vec![]),
        (".a", key_path!(.a), vec![Key::named_field("a")]),
        (".bc", key_path!(.bc), vec![Key::named_field("bc")]),
        (".0", key_path!(.0), vec![Key::numbered_field(0)]),
        (".12", key_path!(.12), vec![Key::numbered_field(12)]),
        ("[0]", key_path!([0]), vec![Key::get(0)]),
        ("[\"x\"]", key_path!(["x"]), vec![Key::get("x")]),
        ("[n + 1]", key_path!([n + 1]), vec![Key::get(8_u8)]),
        ("::A", key_path!(::A), vec![Key::variant("A")]),
        (".\"q r\"", key_path!(."q r"), vec![Key::named_field("q r")]),
        (".a.a", key_path!(.a.a), vec![Key::named_field("a"), Key::named_field("a")]),
        (".a.bc", key_path!(.a.bc), vec![Key::named_field("a"), Key::named_field("bc")]),
        (".a.0", key_path!(.a.0), vec![Key::named_field("a"), Key::numbered_field(0)]),
        (".a.12", key_path!(.a.12), vec![Key::named_field("a"), Key::numbered_field(12)]),
        (".a[0]", key_path!(.a[0]), vec![Key::named_field("a"), Key::get(0)]),
        (".a[\"x\"]", key_path!(.a["x"]), vec![Key::named_field("a"), Key::get("x")]),
        (".a[n + 1]", key_path!(.a[n + 1]), vec![Key::named_field("a"), Key::get(8_u8)]),
        (".a::A", key_path!(.a::A), vec![Key::named_field("a"), Key::variant("A")]),
        (".a.\"q r\"", key_path!(.a."q r"), vec![Key::named_field("a"), Key::named_field("q r")]),
        (".bc.a", key_path!(.bc.a), vec![Key::named_field("bc"), Key::named_field("a")]),
        (".bc.bc", key_path!(.bc.bc), vec![Key::named_field("bc"), Key::named_field("bc")]),
        (".bc.0", key_path!(.bc.0), vec![Key::named_field("bc"), Key::numbered_field(0)]),
        (".bc.12", key_path!(.bc.12), vec![Key::named_field("bc"), Key::numbered_field(12)]),
        (".bc[0]", key_path!(.bc[0]), vec![Key::named_field("bc"), Key::get(0)]),
        (".bc[\"x\"]", key_path!(.bc["x"]), vec![Key::named_field("bc"), Key::get("x")]),
        (".bc[n + 1]", key_path!(.bc[n + 1]), vec![Key::named_field("bc"), Key::get(8_u8)]),
        (".bc::A", key_path!(.bc::A), vec![Key::named_field("bc"), Key::variant("A")]),
        (".bc.\"q r\"", key_path!(.bc."q r"), vec![Key::named_field("bc"), Key::named_field("q r")]),
        (".0.a", key_path!(.0.a), vec![Key::numbered_field(0), Key::named_field("a")]),
        (".0.bc", key_path!(.0.bc), vec![Key::numbered_field(0), Key::named_field("bc")]),
        (".0[0]", key_path!(.0[0]), vec![Key::numbered_field(0), Key::get(0)]),
        (".0[\"x\"]", key_path!(.0["x"]), vec![Key::numbered_field(0), Key::get("x")]),
        (".0[n + 1]", key_path!(.0[n + 1]), vec![Key::numbered_field(0), Key::get(8_u8)]),
        (".0::A", key_path!(.0::A), vec![Key::numbered_field(0), Key::variant("A")]),
        (".12.a", key_path!(.12.a), vec![Key::numbered_field(12), Key::named_field("a")]),
        (".12.bc", key_path!(.12.bc), vec![Key::numbered_field(12), Key::named_field("bc")]),
        (".12[0]", key_path!(.12[0]), vec![Key::numbered_field(12), Key::get(0)]),
        (".12[\"x\"]", key_path!(.12["x"]), vec![Key::numbered_field(12), Key::get("x")]),
        (".12[n + 1]", key_path!(.12[n + 1]), vec![Key::numbered_field(12), Key::get(8_u8)]),
        (".12::A", key_path!(.12::A), vec![Key::numbered_field(12), Key::variant("A")]),
        ("[0].a", key_path!([0].a), vec![Key::get(0), Key::named_field("a")]),
        ("[0].bc", key_path!([0].bc), vec![Key::get(0), Key::named_field("bc")]),
        ("[0].0", key_path!([0].0), vec![Key::get(0), Key::numbered_field(0)]),
        ("[0].12", key_path!([0].12), vec![Key::get(0), Key::numbered_field(12)]),
        ("[0][0]", key_path!([0][0]), vec![Key::get(0), Key::get(0)]),
        ("[0][\"x\"]", key_path!([0]["x"]), vec![Key::get(0), Key::get("x")]),
        ("[0][n + 1]", key_path!([0][n + 1]), vec![Key::get(0), Key::get(8_u8)]),
        ("[0]::A", key_path!([0]::A), vec![Key::get(0), Key::variant("A")]),
        ("[0].\"q r\"", key_path!([0]."q r"), vec![Key::get(0), Key::named_field("q r")]),
        ("[\"x\"].a", key_path!(["x"].a), vec![Key::get("x"), Key::named_field("a")]),
        ("[\"x\"].bc", key_path!(["x"].bc), vec![Key::get("x"), Key::named_field("bc")]),
        ("[\"x\"].0", key_path!(["x"].0), vec![Key::get("x"), Key::numbered_field(0)]),
        ("[\"x\"].12", key_path!(["x"].12), vec![Key::get("x"), Key::numbered_field(12)]),
        ("[\"x\"][0]", key_path!(["x"][0]), vec![Key::get("x"), Key::get(0)]),
        ("[\"x\"][\"x\"]", key_path!(["x"]["x"]), vec![Key::get("x"), Key::get("x")]),
        ("[\"x\"][n + 1]", key_path!(["x"][n + 1]), vec![Key::get("x"), Key::get(8_u8)]),
        ("[\"x\"]::A", key_path!(["x"]::A), vec![Key::get("x"), Key::variant("A")]),
        ("[\"x\"].\"q r\"", key_path!(["x"]."q r"), vec![Key::get("x"), Key::named_field("q r")]),
        ("[n + 1].a", key_path!([n + 1].a), vec![Key::get(8_u8), Key::named_field("a")]),
        ("[n + 1].bc", key_path!([n + 1].bc), vec![Key::get(8_u8), Key::named_field("bc")]),
        ("[n + 1].0", key_path!([n + 1].0), vec![Key::get(8_u8), Key::numbered_field(0)]),
        ("[n + 1].12", key_path!([n + 1].12), vec![Key::get(8_u8), Key::numbered_field(12)]),
        ("[n + 1][0]", key_path!([n + 1][0]), vec![Key::get(8_u8), Key::get(0)]),
        ("[n + 1][\"x\"]", key_path!([n + 1]["x"]), vec![Key::get(8_u8), Key::get("x")]),
        ("[n + 1][n + 1]", key_path!([n + 1][n + 1]), vec![Key::get(8_u8), Key::get(8_u8)]),
        ("[n + 1]::A", key_path!([n + 1]::A), vec![Key::get(8_u8), Key::variant("A")]),
        ("[n + 1].\"q r\"", key_path!([n + 1]."q r"), vec![Key::get(8_u8), Key::named_field("q r")]),
        ("::A.a", key_path!(::A.a), vec![Key::variant("A"), Key::named_field("a")]),
        ("::A.bc", key_path!(::A.bc), vec![Key::variant("A"), Key::named_field("bc")]),
        ("::A.0", key_path!(::A.0), vec![Key::variant("A"), Key::numbered_field(0)]),
        ("::A.12", key_path!(::A.12), vec![Key::variant("A"), Key::numbered_field(12)]),
        ("::A[0]", key_path!(::A[0]), vec![Key::variant("A"), Key::get(0)]),
        ("::A[\"x\"]", key_path!(::A["x"]), vec![Key::variant("A"), Key::get("x")]),
        ("::A[n + 1]", key_path!(::A[n + 1]), vec![Key::variant("A"), Key::get(8_u8)]),
        ("::A::A", key_path!(::A::A), vec![Key::variant("A"), Key::variant("A")]),
        ("::A.\"q r\"", key_path!(::A."q r"), vec![Key::variant("A"), Key::named_field("q r")]),
        (".\"q r\".a", key_path!(."q r".a), vec![Key::named_field("q r"), Key::named_field("a")]),
        (".\"q r\".bc", key_path!(."q r".bc), vec![Key::named_field("q r"), Key::named_field("bc")]),
        (".\"q r\".0", key_path!(."q r".0), vec![Key::named_field("q r"), Key::numbered_field(0)]),
        (".\"q r\".12", key_path!(."q r".12), vec![Key::named_field("q r"), Key::numbered_field(12)]),
        (".\"q r\"[0]", key_path!(."q r"[0]), vec![Key::named_field("q r"), Key::get(0)]),
        (".\"q r\"[\"x\"]", key_path!(."q r"["x"]), vec![Key::named_field("q r"), Key::get("x")]),
        (".\"q r\"[n + 1]", key_path!(."q r"[n + 1]), vec![Key::named_field("q r"), Key::get(8_u8)]),
        (".\"q r\"::A", key_path!(."q r"::A), vec![Key::named_field("q r"), Key::variant("A")]),
        (".\"q r\".\"q r\"", key_path!(."q r"."q r"), vec![Key::named_field("q r"), Key::named_field("q r")]),
        (".a.a.a", key_path!(.a.a.a), vec![Key::named_field("a"), Key::named_field("a"), Key::named_field("a")]),
        (".a.a.bc", key_path!(.a.a.bc), vec![Key::named_field("a"), Key::named_field("a"), Key::named_field("bc")]),
        (".a.a.0", key_path!(.a.a.0), vec![Key::named_field("a"), Key::named_field("a"), Key::numbered_field(0)]),
        (".a.a.12", key_path!(.a.a.12), vec![Key::named_field("a"), Key::named_field("a"), Key::numbered_field(12)]),
        (".a.a[0]", key_path!(.a.a[0]), vec![Key::named_field("a"), Key::named_field("a"), Key::get(0)]),
        (".a.a[\"x\"]", key_path!(.a.a["x"]), vec![Key::named_field("a"), Key::named_field("a"), Key::get("x")]),
        (".a.a[n + 1]", key_path!(.a.a[n + 1]), vec![Key::named_field("a"), Key::named_field("a"), Key::get(8_u8)]),
        (".a.a::A", key_path!(.a.a::A), vec![Key::named_field("a"), Key::named_field("a"), Key::variant("A")]),
        (".a.a.\"q r\"", key_path!(.a.a."q r"), vec![Key::named_field("a"), Key::named_field("a"), Key::named_field("q r")]),
        (".a.bc.a", key_path!(.a.bc.a), vec![Key::named_field("a"), Key::named_field("bc"), Key::named_field("a")]),
        (".a.bc.bc", key_path!(.a.bc.bc), vec![Key::named_field("a"), Key::named_field("bc"), Key::named_field("bc")]),
        (".a.bc.0", key_path!(.a.bc.0), vec![Key::named_field("a"), Key::named_field("bc"), Key::numbered_field(0)]),
        (".a.bc.12", key_path!(.a.bc.12), vec![Key::named_field("a"), Key::named_field("bc"), Key::numbered_field(12)]),
        (".a.bc[0]", key_path!(.a.bc[0]), vec![Key::named_field("a"), Key::named_field("bc"), Key::get(0)]),
        (".a.bc[\"x\"]", key_path!(.a.bc["x"]), vec![Key::named_field("a"), Key::named_field("bc"), Key::get("x")]),
        (".a.bc[n + 1]", key_path!(.a.bc[n + 1]), vec![Key::named_field("a"), Key::named_field("bc"), Key::get(8_u8)]),
        (".a.bc::A", key_path!(.a.bc::A), vec![Key::named_field("a"), Key::named_field("bc"), Key::variant("A")]),
        (".a.bc.\"q r\"", key_path!(.a.bc."q r"), vec![Key::named_field("a"), Key::named_field("bc"), Key::named_field("q r")]),
        (".a.0.a", key_path!(.a.0.a), vec![Key::named_field("a"), Key::numbered_field(0), Key::named_field("a")]),
        (".a.0.bc", key_path!(.a.0.bc), vec![Key::named_field("a"), Key::numbered_field(0), Key::named_field("bc")]),
        (".a.0[0]", key_path!(.a.0[0]), vec![Key::named_field("a"), Key::numbered_field(0), Key::get(0)]),
        (".a.0[\"x\"]", key_path!(.a.0["x"]), vec![Key::named_field("a"), Key::numbered_field(0), Key::get("x")]),
        (".a.0[n + 1]", key_path!(.a.0[n + 1]), vec![Key::named_field("a"), Key::numbered_field(0), Key::get(8_u8)]),
        (".a.0::A", key_path!(.a.0::A), vec![Key::named_field("a"), Key::numbered_field(0), Key::variant("A")]),
        (".a.12.a", key_path!(.a.12.a), vec![Key::named_field("a"), Key::numbered_field(12), Key::named_field("a")]),
        (".a.12.bc", key_path!(.a.12.bc), vec![Key::named_field("a"), Key::numbered_field(12), Key::named_field("bc")]),
        (".a.12[0]", key_path!(.a.12[0]), vec![Key::named_field("a"), Key::numbered_field(12), Key::get(0)]),
        (".a.12[\"x\"]", key_path!(.a.12["x"]), vec![Key::named_field("a"), Key::numbered_field(12), Key::get("x")]),
        (".a.12[n + 1]", key_path!(.a.12[n + 1]), vec![Key::named_field("a"), Key::numbered_field(12), Key::get(8_u8)]),
        (".a.12::A", key_path!(.a.12::A), vec![Key::named_field("a"), Key::numbered_field(12), Key::variant("A")]),
        (".a[0].a", key_path!(.a[0].a), vec![Key::named_field("a"), Key::get(0), Key::named_field("a")]),
        (".a[0].bc", key_path!(.a[0].bc), vec![Key::named_field("a"), Key::get(0), Key::named_field("bc")]),
        (".a[0].0", key_path!(.a[0].0), vec![Key::named_field("a"), Key::get(0), Key::numbered_field(0)]),
        (".a[0].12", key_path!(.a[0].12), vec![Key::named_field("a"), Key::get(0), Key::numbered_field(12)]),
        (".a[0][0]", key_path!(.a[0][0]), vec![Key::named_field("a"), Key::get(0), Key::get(0)]),
        (".a[0][\"x\"]", key_path!(.a[0]["x"]), vec![Key::named_field("a"), Key::get(0), Key::get("x")]),
        (".a[0][n + 1]", key_path!(.a[0][n + 1]), vec![Key::named_field("a"), Key::get(0), Key::get(8_u8)]),
        (".a[0]::A", key_path!(.a[0]::A), vec![Key::named_field("a"), Key::get(0), Key::variant("A")]),
        (".a[0].\"q r\"", key_path!(.a[0]."q r"), vec![Key::named_field("a"), Key::get(0), Key::named_field("q r")]),
        (".a[\"x\"].a", key_path!(.a["x"].a), vec![Key::named_field("a"), Key::get("x"), Key::named_field("a")]),
        (".a[\"x\"].bc", key_path!(.a["x"].bc), vec![Key::named_field("a"), Key::get("x"), Key::named_field("bc")]),
        (".a[\"x\"].0", key_path!(.a["x"].0), vec![Key::named_field("a"), Key::get("x"), Key::numbered_field(0)]),
        (".a[\"x\"].12", key_path!(.a["x"].12), vec![Key::named_field("a"), Key::get("x"), Key::numbered_field(12)]),
        (".a[\"x\"][0]", key_path!(.a["x"][0]), vec![Key::named_field("a"), Key::get("x"), Key::get(0)]),
        (".a[\"x\"][\"x\"]", key_path!(.a["x"]["x"]), vec![Key::named_field("a"), Key::get("x"), Key::get("x")]),
        (".a[\"x\"][n + 1]", key_path!(.a["x"][n + 1]), vec![Key::named_field("a"), Key::get("x"), Key::get(8_u8)]),
        (".a[\"x\"]::A", key_path!(.a["x"]::A), vec![Key::named_field("a"), Key::get("x"), Key::variant("A")]),
        (".a[\"x\"].\"q r\"", key_path!(.a["x"]."q r"), vec![Key::named_field("a"), Key::get("x"), Key::named_field("q r")]),
        (".a[n + 1].a", key_path!(.a[n + 1].a), vec![Key::named_field("a"), Key::get(8_u8), Key::named_field("a")]),
        (".a[n + 1].bc", key_path!(.a[n + 1].bc), vec![Key::named_field("a"), Key::get(8_u8), Key::named_field("bc")]),
        (".a[n + 1].0", key_path!(.a[n + 1].0), vec![Key::named_field("a"), Key::get(8_u8), Key::numbered_field(0)]),
        (".a[n + 1].12", key_path!(.a[n + 1].12), vec![Key::named_field("a"), Key::get(8_u8), Key::numbered_field(12)]),
        (".a[n + 1][0]", key_path!(.a[n + 1][0]), vec![Key::named_field("a"), Key::get(8_u8), Key::get(0)]),
        (".a[n + 1][\"x\"]", key_path!(.a[n + 1]["x"]), vec![Key::named_field("a"), Key::get(8_u8), Key::get("x")]),
        (".a[n + 1][n + 1]", key_path!(.a[n + 1][n + 1]), vec![Key::named_field("a"), Key::get(8_u8), Key::get(8_u8)]),
        (".a[n + 1]::A", key_path!(.a[n + 1]::A), vec![Key::named_field("a"), Key::get(8_u8), Key::variant("A")]),
        (".a[n + 1].\"q r\"", key_path!(.a[n + 1]."q r"), vec![Key::named_field("a"), Key::get(8_u8), Key::named_field("q r")]),
        (".a::A.a", key_path!(.a::A.a), vec![Key::named_field("a"), Key::variant("A"), Key::named_field("a")]),
        (".a::A.bc", key_path!(.a::A.bc), vec![Key::named_field("a"), Key::variant("A"), Key::named_field("bc")]),
        (".a::A.0", key_path!(.a::A.0), vec![Key::named_field("a"), Key::variant("A"), Key::numbered_field(0)]),
        (".a::A.12", key_path!(.a::A.12), vec![Key::named_field("a"), Key::variant("A"), Key::numbered_field(12)]),
        (".a::A[0]", key_path!(.a::A[0]), vec![Key::named_field("a"), Key::variant("A"), Key::get(0)]),
        (".a::A[\"x\"]", key_path!(.a::A["x"]), vec![Key::named_field("a"), Key::variant("A"), Key::get("x")]),
        (".a::A[n + 1]", key_path!(.a::A[n + 1]), vec![Key::named_field("a"), Key::variant("A"), Key::get(8_u8)]),
        (".a::A::A", key_path!(.a::A::A), vec![Key::named_field("a"), Key::variant("A"), Key::variant("A")]),
        (".a::A.\"q r\"", key_path!(.a::A."q r"), vec![Key::named_field("a"), Key::variant("A"), Key::named_field("q r")]),
        (".a.\"q r\".a", key_path!(.a."q r".a), vec![Key::named_field("a"), Key::named_field("q r"), Key::named_field("a")]),
        (".a.\"q r\".bc", key_path!(.a."q r".bc), vec![Key::named_field("a"), Key::named_field("q r"), Key::named_field("bc")]),
        (".a.\"q r\".0", key_path!(.a."q r".0), vec![Key::named_field("a"), Key::named_field("q r"), Key::numbered_field(0)]),
        (".a.\"q r\".12", key_path!(.a."q r".12), vec![Key::named_field("a"), Key::named_field("q r"), Key::numbered_field(12)]),
        (".a.\"q r\"[0]", key_path!(.a."q r"[0]), vec![Key::named_field("a"), Key::named_field("q r"), Key::get(0)]),
        (".a.\"q r\"[\"x\"]", key_path!(.a."q r"["x"]), vec![Key::named_field("a"), Key::named_field("q r"), Key::get("x")]),
        (".a.\"q r\"[n + 1]", key_path!(.a."q r"[n + 1]), vec![Key::named_field("a"), Key::named_field("q r"), Key::get(8_u8)]),
        (".a.\"q r\"::A", key_path!(.a."q r"::A), vec![Key::named_field("a"), Key::named_field("q r"), Key::variant("A")]),
        (".a.\"q r\".\"q r\"", key_path!(.a."q r"."q r"), vec![Key::named_field("a"), Key::named_field("q r"), Key::named_field("q r")]),
        (".bc.a.a", key_path!(.bc.a.a), vec![Key::named_field("bc"), Key::named_field("a"), Key::named_field("a")]),
        (".bc.a.bc", key_path!(.bc.a.bc), vec![Key::named_field("bc"), Key::named_field("a"), Key::named_field("bc")]),
        (".bc.a.0", key_path!(.bc.a.0), vec![Key::named_field("bc"), Key::named_field("a"), Key::numbered_field(0)]),
        (".bc.a.12", key_path!(.bc.a.12), vec![Key::named_field("bc"), Key::named_field("a"), Key::numbered_field(12)]),
        (".bc.a[0]", key_path!(.bc.a[0]), vec![Key::named_field("bc"), Key::named_field("a"), Key::get(0)]),
        (".bc.a[\"x\"]", key_path!(.bc.a["x"]), vec![Key::named_field("bc"), Key::named_field("a"), Key::get("x")]),
        (".bc.a[n + 1]", key_path!(.bc.a[n + 1]), vec![Key::named_field("bc"), Key::named_field("a"), Key::get(8_u8)]),
        (".bc.a::A", key_path!(.bc.a::A), vec![Key::named_field("bc"), Key::named_field("a"), Key::variant("A")]),
        (".bc.a.\"q r\"", key_path!(.bc.a."q r"), vec![Key::named_field("bc"), Key::named_field("a"), Key::named_field("q r")]),
        (".bc.bc.a", key_path!(.bc.bc.a), vec![Key::named_field("bc"), Key::named_field("bc"), Key::named_field("a")]),
        (".bc.bc.bc", key_path!(.bc.bc.bc), vec![Key::named_field("bc"), Key::named_field("bc"), Key::named_field("bc")]),
        (".bc.bc.0", key_path!(.bc.bc.0), vec![Key::named_field("bc"), Key::named_field("bc"), Key::numbered_field(0)]),
        (".bc.bc.12", key_path!(.bc.bc.12), vec![Key::named_field("bc"), Key::named_field("bc"), Key::numbered_field(12)]),
        (".bc.bc[0]", key_path!(.bc.bc[0]), vec![Key::named_field("bc"), Key::named_field("bc"), Key::get(0)]),
        (".bc.bc[\"x\"]", key_path!(.bc.bc["x"]), vec![Key::named_field("bc"), Key::named_field("bc"), Key::get("x")]),
        (".bc.bc[n + 1]", key_path!(.bc.bc[n + 1]), vec![Key::named_field("bc"), Key::named_field("bc"), Key::get(8_u8)]),
        (".bc.bc::A", key_path!(.bc.bc::A), vec![Key::named_field("bc"), Key::named_field("bc"), Key::variant("A")]),
        (".bc.bc.\"q r\"", key_path!(.bc.bc."q r"), vec![Key::named_field("bc"), Key::named_field("bc"), Key::named_field("q r")]),
        (".bc.0.a", key_path!(.bc.0.a), vec![Key::named_field("bc"), Key::numbered_field(0), Key::named_field("a")]),
        (".bc.0.bc", key_path!(.bc.0.bc), vec![Key::named_field("bc"), Key::numbered_field(0), Key::named_field("bc")]),
        (".bc.0[0]", key_path!(.bc.0[0]), vec![Key::named_field("bc"), Key::numbered_field(0), Key::get(0)]),
        (".bc.0[\"x\"]", key_path!(.bc.0["x"]), vec![Key::named_field("bc"), Key::numbered_field(0), Key::get("x")]),
        (".bc.0[n + 1]", key_path!(.bc.0[n + 1]), vec![Key::named_field("bc"), Key::numbered_field(0), Key::get(8_u8)]),
        (".bc.0::A", key_path!(.bc.0::A), vec![Key::named_field("bc"), Key::numbered_field(0), Key::variant("A")]),
        (".bc.12.a", key_path!(.bc.12.a), vec![Key::named_field("bc"), Key::numbered_field(12), Key::named_field("a")]),
        (".bc.12.bc", key_path!(.bc.12.bc), vec![Key::named_field("bc"), Key::numbered_field(12), Key::named_field("bc")]),
        (".bc.12[0]", key_path!(.bc.12[0]), vec![Key::named_field("bc"), Key::numbered_field(12), Key::get(0)]),
        (".bc.12[\"x\"]", key_path!(.bc.12["x"]), vec![Key::named_field("bc"), Key::numbered_field(12), Key::get("x")]),
        (".bc.12[n + 1]", key_path!(.bc.12[n + 1]), vec![Key::named_field("bc"), Key::numbered_field(12), Key::get(8_u8)]),
        (".bc.12::A", key_path!(.bc.12::A), vec![Key::named_field("bc"), Key::numbered_field(12), Key::variant("A")]),
        (".bc[0].a", key_path!(.bc[0].a), vec![Key::named_field("bc"), Key::get(0), Key::named_field("a")]),
        (".bc[0].bc", key_path!(.bc[0].bc), vec![Key::named_field("bc"), Key::get(0), Key::named_field("bc")]),
        (".bc[0].0", key_path!(.bc[0].0), vec![Key::named_field("bc"), Key::get(0), Key::numbered_field(0)]),
        (".bc[0].12", key_path!(.bc[0].12), vec![Key::named_field("bc"), Key::get(0), Key::numbered_field(12)]),
        (".bc[0][0]", key_path!(.bc[0][0]), vec![Key::named_field("bc"), Key::get(0), Key::get(0)]),
        (".bc[0][\"x\"]", key_path!(.bc[0]["x"]), vec![Key::named_field("bc"), Key::get(0), Key::get("x")]),
        (".bc[0][n + 1]", key_path!(.bc[0][n + 1]), vec![Key::named_field("bc"), Key::get(0), Key::get(8_u8)]),
        (".bc[0]::A", key_path!(.bc[0]::A), vec![Key::named_field("bc"), Key::get(0), Key::variant("A")]),
        (".bc[0].\"q r\"", key_path!(.bc[0]."q r"), vec![Key::named_field("bc"), Key::get(0), Key::named_field("q r")]),
        (".bc[\"x\"].a", key_path!(.bc["x"].a), vec![Key::named_field("bc"), Key::get("x"), Key::named_field("a")]),
        (".bc[\"x\"].bc", key_path!(.bc["x"].bc), vec![Key::named_field("bc"), Key::get("x"), Key::named_field("bc")]),
        (".bc[\"x\"].0", key_path!(.bc["x"].0), vec![Key::named_field("bc"), Key::get("x"), Key::numbered_field(0)]),
        (".bc[\"x\"].12", key_path!(.bc["x"].12), vec![Key::named_field("bc"), Key::get("x"), Key::numbered_field(12)]),
        (".bc[\"x\"][0]", key_path!(.bc["x"][0]), vec![Key::named_field("bc"), Key::get("x"), Key::get(0)]),
        (".bc[\"x\"][\"x\"]", key_path!(.bc["x"]["x"]), vec![Key::named_field("bc"), Key::get("x"), Key::get("x")]),
        (".bc[\"x\"][n + 1]", key_path!(.bc["x"][n + 1]), vec![Key::named_field("bc"), Key::get("x"), Key::get(8_u8)]),
        (".bc[\"x\"]::A", key_path!(.bc["x"]::A), vec![Key::named_field("bc"), Key::get("x"), Key::variant("A")]),
        (".bc[\"x\"].\"q r\"", key_path!(.bc["x"]."q r"), vec![Key::named_field("bc"), Key::get("x"), Key::named_field("q r")]),
        (".bc[n + 1].a", key_path!(.bc[n + 1].a), vec![Key::named_field("bc"), Key::get(8_u8), Key::named_field("a")]),
        (".bc[n + 1].bc", key_path!(.bc[n + 1].bc), vec![Key::named_field("bc"), Key::get(8_u8), Key::named_field("bc")]),
        (".bc[n + 1].0", key_path!(.bc[n + 1].0), vec![Key::named_field("bc"), Key::get(8_u8), Key::numbered_field(0)]),
        (".bc[n + 1].12", key_path!(.bc[n + 1].12), vec![Key::named_field("bc"), Key::get(8_u8), Key::numbered_field(12)]),
        (".bc[n + 1][0]", key_path!(.bc[n + 1][0]), vec![Key::named_field("bc"), Key::get(8_u8), Key::get(0)]),
        (".bc[n + 1][\"x\"]", key_path!(.bc[n + 1]["x"]), vec![Key::named_field("bc"), Key::get(8_u8), Key::get("x")]),
        (".bc[n + 1][n + 1]", key_path!(.bc[n + 1][n + 1]), vec![Key::named_field("bc"), Key::get(8_u8), Key::get(8_u8)]),
        (".bc[n + 1]::A", key_path!(.bc[n + 1]::A), vec![Key::named_field("bc"), Key::get(8_u8), Key::variant("A")]),
        (".bc[n + 1].\"q r\"", key_path!(.bc[n + 1]."q r"), vec![Key::named_field("bc"), Key::get(8_u8), Key::named_field("q r")]),
        (".bc::A.a", key_path!(.bc::A.a), vec![Key::named_field("bc"), Key::variant("A"), Key::named_field("a")]),
        (".bc::A.bc", key_path!(.bc::A.bc), vec![Key::named_field("bc"), Key::variant("A"), Key::named_field("bc")]),
        (".bc::A.0", key_path!(.bc::A.0), vec![Key::named_field("bc"), Key::variant("A"), Key::numbered_field(0)]),
        (".bc::A.12", key_path!(.bc::A.12), vec![Key::named_field("bc"), Key::variant("A"), Key::numbered_field(12)]),
        (".bc::A[0]", key_path!(.bc::A[0]), vec![Key::named_field("bc"), Key::variant("A"), Key::get(0)]),
        (".bc::A[\"x\"]", key_path!(.bc::A["x"]), vec![Key::named_field("bc"), Key::variant("A"), Key::get("x")]),
        (".bc::A[n + 1]", key_path!(.bc::A[n + 1]), vec![Key::named_field("bc"), Key::variant("A"), Key::get(8_u8)]),
        (".bc::A::A", key_path!(.bc::A::A), vec![Key::named_field("bc"), Key::variant("A"), Key::variant("A")]),
        (".bc::A.\"q r\"", key_path!(.bc::A."q r"), vec![Key::named_field("bc"), Key::variant("A"), Key::named_field("q r")]),
        (".bc.\"q r\".a", key_path!(.bc."q r".a), vec![Key::named_field("bc"), Key::named_field("q r"), Key::named_field("a")]),
        (".bc.\"q r\".bc", key_path!(.bc."q r".bc), vec![Key::named_field("bc"), Key::named_field("q r"), Key::named_field("bc")]),
        (".bc.\"q r\".0", key_path!(.bc."q r".0), vec![Key::named_field("bc"), Key::named_field("q r"), Key::numbered_field(0)]),
        (".bc.\"q r\".12", key_path!(.bc."q r".12), vec![Key::named_field("bc"), Key::named_field("q r"), Key::numbered_field(12)]),
        (".bc.\"q r\"[0]", key_path!(.bc."q r"[0]), vec![Key::named_field("bc"), Key::named_field("q r"), Key::get(0)]),
        (".bc.\"q r\"[\"x\"]", key_path!(.bc."q r"["x"]), vec![Key::named_field("bc"), Key::named_field("q r"), Key::get("x")]),
        (".bc.\"q r\"[n + 1]", key_path!(.bc."q r"[n + 1]), vec![Key::named_field("bc"), Key::named_field("q r"), Key::get(8_u8)]),
        (".bc.\"q r\"::A", key_path!(.bc."q r"::A), vec![Key::named_field("bc"), Key::named_field("q r"), Key::variant("A")]),
        (".bc.\"q r\".\"q r\"", key_path!(.bc."q r"."q r"), vec![Key::named_field("bc"), Key::named_field("q r"), Key::named_field("q r")]),
        (".0.a.a", key_path!(.0.a.a), vec![Key::numbered_field(0), Key::named_field("a"), Key::named_field("a")]),
        (".0.a.bc", key_path!(.0.a.bc), vec![Key::numbered_field(0), Key::named_field("a"), Key::named_field("bc")]),
        (".0.a.0", key_path!(.0.a.0), vec![Key::numbered_field(0), Key::named_field("a"), Key::numbered_field(0)]),
        (".0.a.12", key_path!(.0.a.12), vec![Key::numbered_field(0), Key::named_field("a"), Key::numbered_field(12)]),
        (".0.a[0]", key_path!(.0.a[0]), vec![Key::numbered_field(0), Key::named_field("a"), Key::get(0)]),
        (".0.a[\"x\"]", key_path!(.0.a["x"]), vec![Key::numbered_field(0), Key::named_field("a"), Key::get("x")]),
        (".0.a[n + 1]", key_path!(.0.a[n + 1]), vec![Key::numbered_field(0), Key::named_field("a"), Key::get(8_u8)]),
        (".0.a::A", key_path!(.0.a::A), vec![Key::numbered_field(0), Key::named_field("a"), Key::variant("A")]),
        (".0.a.\"q r\"", key_path!(.0.a."q r"), vec![Key::numbered_field(0), Key::named_field("a"), Key::named_field("q r")]),
        (".0.bc.a", key_path!(.0.bc.a), vec![Key::numbered_field(0), Key::named_field("bc"), Key::named_field("a")]),
        (".0.bc.bc", key_path!(.0.bc.bc), vec![Key::numbered_field(0), Key::named_field("bc"), Key::named_field("bc")]),
        (".0.bc.0", key_path!(.0.bc.0), vec![Key::numbered_field(0), Key::named_field("bc"), Key::numbered_field(0)]),
        (".0.bc.12", key_path!(.0.bc.12), vec![Key::numbered_field(0), Key::named_field("bc"), Key::numbered_field(12)]),
        (".0.bc[0]", key_path!(.0.bc[0]), vec![Key::numbered_field(0), Key::named_field("bc"), Key::get(0)]),
        (".0.bc[\"x\"]", key_path!(.0.bc["x"]), vec![Key::numbered_field(0), Key::named_field("bc"), Key::get("x")]),
        (".0.bc[n + 1]", key_path!(.0.bc[n + 1]), vec![Key::numbered_field(0), Key::named_field("bc"), Key::get(8_u8)]),
        (".0.bc::A", key_path!(.0.bc::A), vec![Key::numbered_field(0), Key::named_field("bc"), Key::variant("A")]),
        (".0.bc.\"q r\"", key_path!(.0.bc."q r"), vec![Key::numbered_field(0), Key::named_field("bc"), Key::named_field("q r")]),
        (".0[0].a", key_path!(.0[0].a), vec![Key::numbered_field(0), Key::get(0), Key::named_field("a")]),
        (".0[0].bc", key_path!(.0[0].bc), vec![Key::numbered_field(0), Key::get(0), Key::named_field("bc")]),
        (".0[0].0", key_path!(.0[0].0), vec![Key::numbered_field(0), Key::get(0), Key::numbered_field(0)]),
        (".0[0].12", key_path!(.0[0].12), vec![Key::numbered_field(0), Key::get(0), Key::numbered_field(12)]),
        (".0[0][0]", key_path!(.0[0][0]), vec![Key::numbered_field(0), Key::get(0), Key::get(0)]),
        (".0[0][\"x\"]", key_path!(.0[0]["x"]), vec![Key::numbered_field(0), Key::get(0), Key::get("x")]),
        (".0[0][n + 1]", key_path!(.0[0][n + 1]), vec![Key::numbered_field(0), Key::get(0), Key::get(8_u8)]),
        (".0[0]::A", key_path!(.0[0]::A), vec![Key::numbered_field(0), Key::get(0), Key::variant("A")]),
        (".0[0].\"q r\"", key_path!(.0[0]."q r"), vec![Key::numbered_field(0), Key::get(0), Key::named_field("q r")]),
        (".0[\"x\"].a", key_path!(.0["x"].a), vec![Key::numbered_field(0), Key::get("x"), Key::named_field("a")]),
        (".0[\"x\"].bc", key_path!(.0["x"].bc), vec![Key::numbered_field(0), Key::get("x"), Key::named_field("bc")]),
        (".0[\"x\"].0", key_path!(.0["x"].0), vec![Key::numbered_field(0), Key::get("x"), Key::numbered_field(0)]),
        (".0[\"x\"].12", key_path!(.0["x"].12), vec![Key::numbered_field(0), Key::get("x"), Key::numbered_field(12)]),
        (".0[\"x\"][0]", key_path!(.0["x"][0]), vec![Key::numbered_field(0), Key::get("x"), Key::get(0)]),
        (".0[\"x\"][\"x\"]", key_path!(.0["x"]["x"]), vec![Key::numbered_field(0), Key::get("x"), Key::get("x")]),
        (".0[\"x\"][n + 1]", key_path!(.0["x"][n + 1]), vec![Key::numbered_field(0), Key::get("x"), Key::get(8_u8)]),
        (".0[\"x\"]::A", key_path!(.0["x"]::A), vec![Key::numbered_field(0), Key::get("x"), Key::variant("A")]),
        (".0[\"x\"].\"q r\"", key_path!(.0["x"]."q r"), vec![Key::numbered_field(0), Key::get("x"), Key::named_field("q r")]),
        (".0[n + 1].a", key_path!(.0[n + 1].a), vec![Key::numbered_field(0), Key::get(8_u8), Key::named_field("a")]),
        (".0[n + 1].bc", key_path!(.0[n + 1].bc), vec![Key::numbered_field(0), Key::get(8_u8), Key::named_field("bc")]),
        (".0[n + 1].0", key_path!(.0[n + 1].0), vec![Key::numbered_field(0), Key::get(8_u8), Key::numbered_field(0)]),
        (".0[n + 1].12", key_path!(.0[n + 1].12), vec![Key::numbered_field(0), Key::get(8_u8), Key::numbered_field(12)]),
        (".0[n + 1][0]", key_path!(.0[n + 1][0]), vec![Key::numbered_field(0), Key::get(8_u8), Key::get(0)]),
        (".0[n + 1][\"x\"]", key_path!(.0[n + 1]["x"]), vec![Key::numbered_field(0), Key::get(8_u8), Key::get("x")]),
        (".0[n + 1][n + 1]", key_path!(.0[n + 1][n + 1]), vec![Key::numbered_field(0), Key::get(8_u8), Key::get(8_u8)]),
        (".0[n + 1]::A", key_path!(.0[n + 1]::A), vec![Key::numbered_field(0), Key::get(8_u8), Key::variant("A")]),
        (".0[n + 1].\"q r\"", key_path!(.0[n + 1]."q r"), vec![Key::numbered_field(0), Key::get(8_u8), Key::named_field("q r")]),
        (".0::A.a", key_path!(.0::A.a), vec![Key::numbered_field(0), Key::variant("A"), Key::named_field("a")]),
        (".0::A.bc", key_path!(.0::A.bc), vec![Key::numbered_field(0), Key::variant("A"), Key::named_field("bc")]),
        (".0::A.0", key_path!(.0::A.0), vec![Key::numbered_field(0), Key::variant("A"), Key::numbered_field(0)]),
        (".0::A.12", key_path!(.0::A.12), vec![Key::numbered_field(0), Key::variant("A"), Key::numbered_field(12)]),
        (".0::A[0]", key_path!(.0::A[0]), vec![Key::numbered_field(0), Key::variant("A"), Key::get(0)]),
        (".0::A[\"x\"]", key_path!(.0::A["x"]), vec![Key::numbered_field(0), Key::variant("A"), Key::get("x")]),
        (".0::A[n + 1]", key_path!(.0::A[n + 1]), vec![Key::numbered_field(0), Key::variant("A"), Key::get(8_u8)]),
        (".0::A::A", key_path!(.0::A::A), vec![Key::numbered_field(0), Key::variant("A"), Key::variant("A")]),
        (".0::A.\"q r\"", key_path!(.0::A."q r"), vec![Key::numbered_field(0), Key::variant("A"), Key::named_field("q r")]),
        (".12.a.a", key_path!(.12.a.a), vec![Key::numbered_field(12), Key::named_field("a"), Key::named_field("a")]),
        (".12.a.bc", key_path!(.12.a.bc), vec![Key::numbered_field(12), Key::named_field("a"), Key::named_field("bc")]),
        (".12.a.0", key_path!(.12.a.0), vec![Key::numbered_field(12), Key::named_field("a"), Key::numbered_field(0)]),
        (".12.a.12", key_path!(.12.a.12), vec![Key::numbered_field(12), Key::named_field("a"), Key::numbered_field(12)]),
        (".12.a[0]", key_path!(.12.a[0]), vec![Key::numbered_field(12), Key::named_field("a"), Key::get(0)]),
        (".12.a[\"x\"]", key_path!(.12.a["x"]), vec![Key::numbered_field(12), Key::named_field("a"), Key::get("x")]),
        (".12.a[n + 1]", key_path!(.12.a[n + 1]), vec![Key::numbered_field(12), Key::named_field("a"), Key::get(8_u8)]),
        (".12.a::A", key_path!(.12.a::A), vec![Key::numbered_field(12), Key::named_field("a"), Key::variant("A")]),
        (".12.a.\"q r\"", key_path!(.12.a."q r"), vec![Key::numbered_field(12), Key::named_field("a"), Key::named_field("q r")]),
        (".12.bc.a", key_path!(.12.bc.a), vec![Key::numbered_field(12), Key::named_field("bc"), Key::named_field("a")]),
        (".12.bc.bc", key_path!(.12.bc.bc), vec![Key::numbered_field(12), Key::named_field("bc"), Key::named_field("bc")]),
        (".12.bc.0", key_path!(.12.bc.0), vec![Key::numbered_field(12), Key::named_field("bc"), Key::numbered_field(0)]),
        (".12.bc.12", key_path!(.12.bc.12), vec![Key::numbered_field(12), Key::named_field("bc"), Key::numbered_field(12)]),
        (".12.bc[0]", key_path!(.12.bc[0]), vec![Key::numbered_field(12), Key::named_field("bc"), Key::get(0)]),
        (".12.bc[\"x\"]", key_path!(.12.bc["x"]), vec![Key::numbered_field(12), Key::named_field("bc"), Key::get("x")]),
        (".12.bc[n + 1]", key_path!(.12.bc[n + 1]), vec![Key::numbered_field(12), Key::named_field("bc"), Key::get(8_u8)]),
        (".12.bc::A", key_path!(.12.bc::A), vec![Key::numbered_field(12), Key::named_field("bc"), Key::variant("A")]),
        (".12.bc.\"q r\"", key_path!(.12.bc."q r"), vec![Key::numbered_field(12), Key::named_field("bc"), Key::named_field("q r")]),
        (".12[0].a", key_path!(.12[0].a), vec![Key::numbered_field(12), Key::get(0), Key::named_field("a")]),
        (".12[0].bc", key_path!(.12[0].bc), vec![Key::numbered_field(12), Key::get(0), Key::named_field("bc")]),
        (".12[0].0", key_path!(.12[0].0), vec![Key::numbered_field(12), Key::get(0), Key::numbered_field(0)]),
        (".12[0].12", key_path!(.12[0].12), vec![Key::numbered_field(12), Key::get(0), Key::numbered_field(12)]),
        (".12[0][0]", key_path!(.12[0][0]), vec![Key::numbered_field(12), Key::get(0), Key::get(0)]),
        (".12[0][\"x\"]", key_path!(.12[0]["x"]), vec![Key::numbered_field(12), Key::get(0), Key::get("x")]),
        (".12[0][n + 1]", key_path!(.12[0][n + 1]), vec![Key::numbered_field(12), Key::get(0), Key::get(8_u8)]),
        (".12[0]::A", key_path!(.12[0]::A), vec![Key::numbered_field(12), Key::get(0), Key::variant("A")]),
        (".12[0].\"q r\"", key_path!(.12[0]."q r"), vec![Key::numbered_field(12), Key::get(0), Key::named_field("q r")]),
        (".12[\"x\"].a", key_path!(.12["x"].a), vec![Key::numbered_field(12), Key::get("x"), Key::named_field("a")]),
        (".12[\"x\"].bc", key_path!(.12["x"].bc), vec![Key::numbered_field(12), Key::get("x"), Key::named_field("bc")]),
        (".12[\"x\"].0", key_path!(.12["x"].0), vec![Key::numbered_field(12), Key::get("x"), Key::numbered_field(0)]),
        (".12[\"x\"].12", key_path!(.12["x"].12), vec![Key::numbered_field(12), Key::get("x"), Key::numbered_field(12)]),
        (".12[\"x\"][0]", key_path!(.12["x"][0]), vec![Key::numbered_field(12), Key::get("x"), Key::get(0)]),
        (".12[\"x\"][\"x\"]", key_path!(.12["x"]["x"]), vec![Key::numbered_field(12), Key::get("x"), Key::get("x")]),
        (".12[\"x\"][n + 1]", key_path!(.12["x"][n + 1]), vec![Key::numbered_field(12), Key::get("x"), Key::get(8_u8)]),
        (".12[\"x\"]::A", key_path!(.12["x"]::A), vec![Key::numbered_field(12), Key::get("x"), Key::variant("A")]),
        (".12[\"x\"].\"q r\"", key_path!(.12["x"]."q r"), vec![Key::numbered_field(12), Key::get("x"), Key::named_field("q r")]),
        (".12[n + 1].a", key_path!(.12[n + 1].a), vec![Key::numbered_field(12), Key::get(8_u8), Key::named_field("a")]),
        (".12[n + 1].bc", key_path!(.12[n + 1].bc), vec![Key::numbered_field(12), Key::get(8_u8), Key::named_field("bc")]),
        (".12[n + 1].0", key_path!(.12[n + 1].0), vec![Key::numbered_field(12), Key::get(8_u8), Key::numbered_field(0)]),
        (".12[n + 1].12", key_path!(.12[n + 1].12), vec![Key::numbered_field(12), Key::get(8_u8), Key::numbered_field(12)]),
        (".12[n + 1][0]", key_path!(.12[n + 1][0]), vec![Key::numbered_field(12), Key::get(8_u8), Key::get(0)]),
        (".12[n + 1][\"x\"]", key_path!(.12[n + 1]["x"]), vec![Key::numbered_field(12), Key::get(8_u8), Key::get("x")]),
        (".12[n + 1][n + 1]", key_path!(.12[n + 1][n + 1]), vec![Key::numbered_field(12), Key::get(8_u8), Key::get(8_u8)]),
        (".12[n + 1]::A", key_path!(.12[n + 1]::A), vec![Key::numbered_field(12), Key::get(8_u8), Key::variant("A")]),
        (".12[n + 1].\"q r\"", key_path!(.12[n + 1]."q r"), vec![Key::numbered_field(12), Key::get(8_u8), Key::named_field("q r")]),
        (".12::A.a", key_path!(.12::A.a), vec![Key::numbered_field(12), Key::variant("A"), Key::named_field("a")]),
        (".12::A.bc", key_path!(.12::A.bc), vec![Key::numbered_field(12), Key::variant("A"), Key::named_field("bc")]),
        (".12::A.0", key_path!(.12::A.0), vec![Key::numbered_field(12), Key::variant("A"), Key::numbered_field(0)]),
        (".12::A.12", key_path!(.12::A.12), vec![Key::numbered_field(12), Key::variant("A"), Key::numbered_field(12)]),
        (".12::A[0]", key_path!(.12::A[0]), vec![Key::numbered_field(12), Key::variant("A"), Key::get(0)]),
        (".12::A[\"x\"]", key_path!(.12::A["x"]), vec![Key::numbered_field(12), Key::variant("A"), Key::get("x")]),
        (".12::A[n + 1]", key_path!(.12::A[n + 1]), vec![Key::numbered_field(12), Key::variant("A"), Key::get(8_u8)]),
        (".12::A::A", key_path!(.12::A::A), vec![Key::numbered_field(12), Key::variant("A"), Key::variant("A")]),
        (".12::A.\"q r\"", key_path!(.12::A."q r"), vec![Key::numbered_field(12), Key::variant("A"), Key::named_field("q r")]),
        ("[0].a.a", key_path!([0].a.a), vec![Key::get(0), Key::named_field("a"), Key::named_field("a")]),
        ("[0].a.bc", key_path!([0].a.bc), vec![Key::get(0), Key::named_field("a"), Key::named_field("bc")]),
        ("[0].a.0", key_path!([0].a.0), vec![Key::get(0), Key::named_field("a"), Key::numbered_field(0)]),
        ("[0].a.12", key_path!([0].a.12), vec![Key::get(0), Key::named_field("a"), Key::numbered_field(12)]),
        ("[0].a[0]", key_path!([0].a[0]), vec![Key::get(0), Key::named_field("a"), Key::get(0)]),
        ("[0].a[\"x\"]", key_path!([0].a["x"]), vec![Key::get(0), Key::named_field("a"), Key::get("x")]),
        ("[0].a[n + 1]", key_path!([0].a[n + 1]), vec![Key::get(0), Key::named_field("a"), Key::get(8_u8)]),
        ("[0].a::A", key_path!([0].a::A), vec![Key::get(0), Key::named_field("a"), Key::variant("A")]),
        ("[0].a.\"q r\"", key_path!([0].a."q r"), vec![Key::get(0), Key::named_field("a"), Key::named_field("q r")]),
        ("[0].bc.a", key_path!([0].bc.a), vec![Key::get(0), Key::named_field("bc"), Key::named_field("a")]),
        ("[0].bc.bc", key_path!([0].bc.bc), vec![Key::get(0), Key::named_field("bc"), Key::named_field("bc")]),
        ("[0].bc.0", key_path!([0].bc.0), vec![Key::get(0), Key::named_field("bc"), Key::numbered_field(0)]),
        ("[0].bc.12", key_path!([0].bc.12), vec![Key::get(0), Key::named_field("bc"), Key::numbered_field(12)]),
        ("[0].bc[0]", key_path!([0].bc[0]), vec![Key::get(0), Key::named_field("bc"), Key::get(0)]),
        ("[0].bc[\"x\"]", key_path!([0].bc["x"]), vec![Key::get(0), Key::named_field("bc"), Key::get("x")]),
        ("[0].bc[n + 1]", key_path!([0].bc[n + 1]), vec![Key::get(0), Key::named_field("bc"), Key::get(8_u8)]),
        ("[0].bc::A", key_path!([0].bc::A), vec![Key::get(0), Key::named_field("bc"), Key::variant("A")]),
        ("[0].bc.\"q r\"", key_path!([0].bc."q r"), vec![Key::get(0), Key::named_field("bc"), Key::named_field("q r")]),
        ("[0].0.a", key_path!([0].0.a), vec![Key::get(0), Key::numbered_field(0), Key::named_field("a")]),
        ("[0].0.bc", key_path!([0].0.bc), vec![Key::get(0), Key::numbered_field(0), Key::named_field("bc")]),
        ("[0].0[0]", key_path!([0].0[0]), vec![Key::get(0), Key::numbered_field(0), Key::get(0)]),
        ("[0].0[\"x\"]", key_path!([0].0["x"]), vec![Key::get(0), Key::numbered_field(0), Key::get("x")]),
        ("[0].0[n + 1]", key_path!([0].0[n + 1]), vec![Key::get(0), Key::numbered_field(0), Key::get(8_u8)]),
        ("[0].0::A", key_path!([0].0::A), vec![Key::get(0), Key::numbered_field(0), Key::variant("A")]),
        ("[0].12.a", key_path!([0].12.a), vec![Key::get(0), Key::numbered_field(12), Key::named_field("a")]),
        ("[0].12.bc", key_path!([0].12.bc), vec![Key::get(0), Key::numbered_field(12), Key::named_field("bc")]),
        ("[0].12[0]", key_path!([0].12[0]), vec![Key::get(0), Key::numbered_field(12), Key::get(0)]),
        ("[0].12[\"x\"]", key_path!([0].12["x"]), vec![Key::get(0), Key::numbered_field(12), Key::get("x")]),
        ("[0].12[n + 1]", key_path!([0].12[n + 1]), vec![Key::get(0), Key::numbered_field(12), Key::get(8_u8)]),
        ("[0].12::A", key_path!([0].12::A), vec![Key::get(0), Key::numbered_field(12), Key::variant("A")]),
        ("[0][0].a", key_path!([0][0].a), vec![Key::get(0), Key::get(0), Key::named_field("a")]),
        ("[0][0].bc", key_path!([0][0].bc), vec![Key::get(0), Key::get(0), Key::named_field("bc")]),
        ("[0][0].0", key_path!([0][0].0), vec![Key::get(0), Key::get(0), Key::numbered_field(0)]),
        ("[0][0].12", key_path!([0][0].12), vec![Key::get(0), Key::get(0), Key::numbered_field(12)]),
        ("[0][0][0]", key_path!([0][0][0]), vec![Key::get(0), Key::get(0), Key::get(0)]),
        ("[0][0][\"x\"]", key_path!([0][0]["x"]), vec![Key::get(0), Key::get(0), Key::get("x")]),
        ("[0][0][n + 1]", key_path!([0][0][n + 1]), vec![Key::get(0), Key::get(0), Key::get(8_u8)]),
        ("[0][0]::A", key_path!([0][0]::A), vec![Key::get(0), Key::get(0), Key::variant("A")]),
        ("[0][0].\"q r\"", key_path!([0][0]."q r"), vec![Key::get(0), Key::get(0), Key::named_field("q r")]),
        ("[0][\"x\"].a", key_path!([0]["x"].a), vec![Key::get(0), Key::get("x"), Key::named_field("a")]),
        ("[0][\"x\"].bc", key_path!([0]["x"].bc), vec![Key::get(0), Key::get("x"), Key::named_field("bc")]),
        ("[0][\"x\"].0", key_path!([0]["x"].0), vec![Key::get(0), Key::get("x"), Key::numbered_field(0)]),
        ("[0][\"x\"].12", key_path!([0]["x"].12), vec![Key::get(0), Key::get("x"), Key::numbered_field(12)]),
        ("[0][\"x\"][0]", key_path!([0]["x"][0]), vec![Key::get(0), Key::get("x"), Key::get(0)]),
        ("[0][\"x\"][\"x\"]", key_path!([0]["x"]["x"]), vec![Key::get(0), Key::get("x"), Key::get("x")]),
        ("[0][\"x\"][n + 1]", key_path!([0]["x"][n + 1]), vec![Key::get(0), Key::get("x"), Key::get(8_u8)]),
        ("[0][\"x\"]::A", key_path!([0]["x"]::A), vec![Key::get(0), Key::get("x"), Key::variant("A")]),
        ("[0][\"x\"].\"q r\"", key_path!([0]["x"]."q r"), vec![Key::get(0), Key::get("x"), Key::named_field("q r")]),
        ("[0][n + 1].a", key_path!([0][n + 1].a), vec![Key::get(0), Key::get(8_u8), Key::named_field("a")]),
        ("[0][n + 1].bc", key_path!([0][n + 1].bc), vec![Key::get(0), Key::get(8_u8), Key::named_field("bc")]),
        ("[0][n + 1].0", key_path!([0][n + 1].0), vec![Key::get(0), Key::get(8_u8), Key::numbered_field(0)]),
        ("[0][n + 1].12", key_path!([0][n + 1].12), vec![Key::get(0), Key::get(8_u8), Key::numbered_field(12)]),
        ("[0][n + 1][0]", key_path!([0][n + 1][0]), vec![Key::get(0), Key::get(8_u8), Key::get(0)]),
        ("[0][n + 1][\"x\"]", key_path!([0][n + 1]["x"]), vec![Key::get(0), Key::get(8_u8), Key::get("x")]),
        ("[0][n + 1][n + 1]", key_path!([0][n + 1][n + 1]), vec![Key::get(0), Key::get(8_u8), Key::get(8_u8)]),
        ("[0][n + 1]::A", key_path!([0][n + 1]::A), vec![Key::get(0), Key::get(8_u8), Key::variant("A")]),
        ("[0][n + 1].\"q r\"", key_path!([0][n + 1]."q r"), vec![Key::get(0), Key::get(8_u8), Key::named_field("q r")]),
        ("[0]::A.a", key_path!([0]::A.a), vec![Key::get(0), Key::variant("A"), Key::named_field("a")]),
        ("[0]::A.bc", key_path!([0]::A.bc), vec![Key::get(0), Key::variant("A"), Key::named_field("bc")]),
        ("[0]::A.0", key_path!([0]::A.0), vec![Key::get(0), Key::variant("A"), Key::numbered_field(0)]),
        ("[0]::A.12", key_path!([0]::A.12), vec![Key::get(0), Key::variant("A"), Key::numbered_field(12)]),
        ("[0]::A[0]", key_path!([0]::A[0]), vec![Key::get(0), Key::variant("A"), Key::get(0)]),
        ("[0]::A[\"x\"]", key_path!([0]::A["x"]), vec![Key::get(0), Key::variant("A"), Key::get("x")]),
        ("[0]::A[n + 1]", key_path!([0]::A[n + 1]), vec![Key::get(0), Key::variant("A"), Key::get(8_u8)]),
        ("[0]::A::A", key_path!([0]::A::A), vec![Key::get(0), Key::variant("A"), Key::variant("A")]),
        ("[0]::A.\"q r\"", key_path!([0]::A."q r"), vec![Key::get(0), Key::variant("A"), Key::named_field("q r")]),
        ("[0].\"q r\".a", key_path!([0]."q r".a), vec![Key::get(0), Key::named_field("q r"), Key::named_field("a")]),
        ("[0].\"q r\".bc", key_path!([0]."q r".bc), vec![Key::get(0), Key::named_field("q r"), Key::named_field("bc")]),
        ("[0].\"q r\".0", key_path!([0]."q r".0), vec![Key::get(0), Key::named_field("q r"), Key::numbered_field(0)]),
        ("[0].\"q r\".12", key_path!([0]."q r".12), vec![Key::get(0), Key::named_field("q r"), Key::numbered_field(12)]),
        ("[0].\"q r\"[0]", key_path!([0]."q r"[0]), vec![Key::get(0), Key::named_field("q r"), Key::get(0)]),
        ("[0].\"q r\"[\"x\"]", key_path!([0]."q r"["x"]), vec![Key::get(0), Key::named_field("q r"), Key::get("x")]),
        ("[0].\"q r\"[n + 1]", key_path!([0]."q r"[n + 1]), vec![Key::get(0), Key::named_field("q r"), Key::get(8_u8)]),
        ("[0].\"q r\"::A", key_path!([0]."q r"::A), vec![Key::get(0), Key::named_field("q r"), Key::variant("A")]),
        ("[0].\"q r\".\"q r\"", key_path!([0]."q r"."q r"), vec![Key::get(0), Key::named_field("q r"), Key::named_field("q r")]),
        ("[\"x\"].a.a", key_path!(["x"].a.a), vec![Key::get("x"), Key::named_field("a"), Key::named_field("a")]),
        ("[\"x\"].a.bc", key_path!(["x"].a.bc), vec![Key::get("x"), Key::named_field("a"), Key::named_field("bc")]),
        ("[\"x\"].a.0", key_path!(["x"].a.0), vec![Key::get("x"), Key::named_field("a"), Key::numbered_field(0)]),
        ("[\"x\"].a.12", key_path!(["x"].a.12), vec![Key::get("x"), Key::named_field("a"), Key::numbered_field(12)]),
        ("[\"x\"].a[0]", key_path!(["x"].a[0]), vec![Key::get("x"), Key::named_field("a"), Key::get(0)]),
        ("[\"x\"].a[\"x\"]", key_path!(["x"].a["x"]), vec![Key::get("x"), Key::named_field("a"), Key::get("x")]),
        ("[\"x\"].a[n + 1]", key_path!(["x"].a[n + 1]), vec![Key::get("x"), Key::named_field("a"), Key::get(8_u8)]),
        ("[\"x\"].a::A", key_path!(["x"].a::A), vec![Key::get("x"), Key::named_field("a"), Key::variant("A")]),
        ("[\"x\"].a.\"q r\"", key_path!(["x"].a."q r"), vec![Key::get("x"), Key::named_field("a"), Key::named_field("q r")]),
        ("[\"x\"].bc.a", key_path!(["x"].bc.a), vec![Key::get("x"), Key::named_field("bc"), Key::named_field("a")]),
        ("[\"x\"].bc.bc", key_path!(["x"].bc.bc), vec![Key::get("x"), Key::named_field("bc"), Key::named_field("bc")]),
        ("[\"x\"].bc.0", key_path!(["x"].bc.0), vec![Key::get("x"), Key::named_field("bc"), Key::numbered_field(0)]),
        ("[\"x\"].bc.12", key_path!(["x"].bc.12), vec![Key::get("x"), Key::named_field("bc"), Key::numbered_field(12)]),
        ("[\"x\"].bc[0]", key_path!(["x"].bc[0]), vec![Key::get("x"), Key::named_field("bc"), Key::get(0)]),
        ("[\"x\"].bc[\"x\"]", key_path!(["x"].bc["x"]), vec![Key::get("x"), Key::named_field("bc"), Key::get("x")]),
        ("[\"x\"].bc[n + 1]", key_path!(["x"].bc[n + 1]), vec![Key::get("x"), Key::named_field("bc"), Key::get(8_u8)]),
        ("[\"x\"].bc::A", key_path!(["x"].bc::A), vec![Key::get("x"), Key::named_field("bc"), Key::variant("A")]),
        ("[\"x\"].bc.\"q r\"", key_path!(["x"].bc."q r"), vec![Key::get("x"), Key::named_field("bc"), Key::named_field("q r")]),
        ("[\"x\"].0.a", key_path!(["x"].0.a), vec![Key::get("x"), Key::numbered_field(0), Key::named_field("a")]),
        ("[\"x\"].0.bc", key_path!(["x"].0.bc), vec![Key::get("x"), Key::numbered_field(0), Key::named_field("bc")]),
        ("[\"x\"].0[0]", key_path!(["x"].0[0]), vec![Key::get("x"), Key::numbered_field(0), Key::get(0)]),
        ("[\"x\"].0[\"x\"]", key_path!(["x"].0["x"]), vec![Key::get("x"), Key::numbered_field(0), Key::get("x")]),
        ("[\"x\"].0[n + 1]", key_path!(["x"].0[n + 1]), vec![Key::get("x"), Key::numbered_field(0), Key::get(8_u8)]),
        ("[\"x\"].0::A", key_path!(["x"].0::A), vec![Key::get("x"), Key::numbered_field(0), Key::variant("A")]),
        ("[\"x\"].12.a", key_path!(["x"].12.a), vec![Key::get("x"), Key::numbered_field(12), Key::named_field("a")]),
        ("[\"x\"].12.bc", key_path!(["x"].12.bc), vec![Key::get("x"), Key::numbered_field(12), Key::named_field("bc")]),
        ("[\"x\"].12[0]", key_path!(["x"].12[0]), vec![Key::get("x"), Key::numbered_field(12), Key::get(0)]),
        ("[\"x\"].12[\"x\"]", key_path!(["x"].12["x"]), vec![Key::get("x"), Key::numbered_field(12), Key::get("x")]),
        ("[\"x\"].12[n + 1]", key_path!(["x"].12[n + 1]), vec![Key::get("x"), Key::numbered_field(12), Key::get(8_u8)]),
        ("[\"x\"].12::A", key_path!(["x"].12::A), vec![Key::get("x"), Key::numbered_field(12), Key::variant("A")]),
        ("[\"x\"][0].a", key_path!(["x"][0].a), vec![Key::get("x"), Key::get(0), Key::named_field("a")]),
        ("[\"x\"][0].bc", key_path!(["x"][0].bc), vec![Key::get("x"), Key::get(0), Key::named_field("bc")]),
        ("[\"x\"][0].0", key_path!(["x"][0].0), vec![Key::get("x"), Key::get(0), Key::numbered_field(0)]),
        ("[\"x\"][0].12", key_path!(["x"][0].12), vec![Key::get("x"), Key::get(0), Key::numbered_field(12)]),
        ("[\"x\"][0][0]", key_path!(["x"][0][0]), vec![Key::get("x"), Key::get(0), Key::get(0)]),
        ("[\"x\"][0][\"x\"]", key_path!(["x"][0]["x"]), vec![Key::get("x"), Key::get(0), Key::get("x")]),
        ("[\"x\"][0][n + 1]", key_path!(["x"][0][n + 1]), vec![Key::get("x"), Key::get(0), Key::get(8_u8)]),
        ("[\"x\"][0]::A", key_path!(["x"][0]::A), vec![Key::get("x"), Key::get(0), Key::variant("A")]),
        ("[\"x\"][0].\"q r\"", key_path!(["x"][0]."q r"), vec![Key::get("x"), Key::get(0), Key::named_field("q r")]),
        ("[\"x\"][\"x\"].a", key_path!(["x"]["x"].a), vec![Key::get("x"), Key::get("x"), Key::named_field("a")]),
        ("[\"x\"][\"x\"].bc", key_path!(["x"]["x"].bc), vec![Key::get("x"), Key::get("x"), Key::named_field("bc")]),
        ("[\"x\"][\"x\"].0", key_path!(["x"]["x"].0), vec![Key::get("x"), Key::get("x"), Key::numbered_field(0)]),
        ("[\"x\"][\"x\"].12", key_path!(["x"]["x"].12), vec![Key::get("x"), Key::get("x"), Key::numbered_field(12)]),
        ("[\"x\"][\"x\"][0]", key_path!(["x"]["x"][0]), vec![Key::get("x"), Key::get("x"), Key::get(0)]),
        ("[\"x\"][\"x\"][\"x\"]", key_path!(["x"]["x"]["x"]), vec![Key::get("x"), Key::get("x"), Key::get("x")]),
        ("[\"x\"][\"x\"][n + 1]", key_path!(["x"]["x"][n + 1]), vec![Key::get("x"), Key::get("x"), Key::get(8_u8)]),
        ("[\"x\"][\"x\"]::A", key_path!(["x"]["x"]::A), vec![Key::get("x"), Key::get("x"), Key::variant("A")]),
        ("[\"x\"][\"x\"].\"q r\"", key_path!(["x"]["x"]."q r"), vec![Key::get("x"), Key::get("x"), Key::named_field("q r")]),
        ("[\"x\"][n + 1].a", key_path!(["x"][n + 1].a), vec![Key::get("x"), Key::get(8_u8), Key::named_field("a")]),
        ("[\"x\"][n + 1].bc", key_path!(["x"][n + 1].bc), vec![Key::get("x"), Key::get(8_u8), Key::named_field("bc")]),
        ("[\"x\"][n + 1].0", key_path!(["x"][n + 1].0), vec![Key::get("x"), Key::get(8_u8), Key::numbered_field(0)]),
        ("[\"x\"][n + 1].12", key_path!(["x"][n + 1].12), vec![Key::get("x"), Key::get(8_u8), Key::numbered_field(12)]),
        ("[\"x\"][n + 1][0]", key_path!(["x"][n + 1][0]), vec![Key::get("x"), Key::get(8_u8), Key::get(0)]),
        ("[\"x\"][n + 1][\"x\"]", key_path!(["x"][n + 1]["x"]), vec![Key::get("x"), Key::get(8_u8), Key::get("x")]),
        ("[\"x\"][n + 1][n + 1]", key_path!(["x"][n + 1][n + 1]), vec![Key::get("x"), Key::get(8_u8), Key::get(8_u8)]),
        ("[\"x\"][n + 1]::A", key_path!(["x"][n + 1]::A), vec![Key::get("x"), Key::get(8_u8), Key::variant("A")]),
        ("[\"x\"][n + 1].\"q r\"", key_path!(["x"][n + 1]."q r"), vec![Key::get("x"), Key::get(8_u8), Key::named_field("q r")]),
        ("[\"x\"]::A.a", key_path!(["x"]::A.a), vec![Key::get("x"), Key::variant("A"), Key::named_field("a")]),
        ("[\"x\"]::A.bc", key_path!(["x"]::A.bc), vec![Key::get("x"), Key::variant("A"), Key::named_field("bc")]),
        ("[\"x\"]::A.0", key_path!(["x"]::A.0), vec![Key::get("x"), Key::variant("A"), Key::numbered_field(0)]),
        ("[\"x\"]::A.12", key_path!(["x"]::A.12), vec![Key::get("x"), Key::variant("A"), Key::numbered_field(12)]),
        ("[\"x\"]::A[0]", key_path!(["x"]::A[0]), vec![Key::get("x"), Key::variant("A"), Key::get(0)]),
        ("[\"x\"]::A[\"x\"]", key_path!(["x"]::A["x"]), vec![Key::get("x"), Key::variant("A"), Key::get("x")]),
        ("[\"x\"]::A[n + 1]", key_path!(["x"]::A[n + 1]), vec![Key::get("x"), Key::variant("A"), Key::get(8_u8)]),
        ("[\"x\"]::A::A", key_path!(["x"]::A::A), vec![Key::get("x"), Key::variant("A"), Key::variant("A")]),
        ("[\"x\"]::A.\"q r\"", key_path!(["x"]::A."q r"), vec![Key::get("x"), Key::variant("A"), Key::named_field("q r")]),
        ("[\"x\"].\"q r\".a", key_path!(["x"]."q r".a), vec![Key::get("x"), Key::named_field("q r"), Key::named_field("a")]),
        ("[\"x\"].\"q r\".bc", key_path!(["x"]."q r".bc), vec![Key::get("x"), Key::named_field("q r"), Key::named_field("bc")]),
        ("[\"x\"].\"q r\".0", key_path!(["x"]."q r".0), vec![Key::get("x"), Key::named_field("q r"), Key::numbered_field(0)]),
        ("[\"x\"].\"q r\".12", key_path!(["x"]."q r".12), vec![Key::get("x"), Key::named_field("q r"), Key::numbered_field(12)]),
        ("[\"x\"].\"q r\"[0]", key_path!(["x"]."q r"[0]), vec![Key::get("x"), Key::named_field("q r"), Key::get(0)]),
        ("[\"x\"].\"q r\"[\"x\"]", key_path!(["x"]."q r"["x"]), vec![Key::get("x"), Key::named_field("q r"), Key::get("x")]),
        ("[\"x\"].\"q r\"[n + 1]", key_path!(["x"]."q r"[n + 1]), vec![Key::get("x"), Key::named_field("q r"), Key::get(8_u8)]),
        ("[\"x\"].\"q r\"::A", key_path!(["x"]."q r"::A), vec![Key::get("x"), Key::named_field("q r"), Key::variant("A")]),
        ("[\"x\"].\"q r\".\"q r\"", key_path!(["x"]."q r"."q r"), vec![Key::get("x"), Key::named_field("q r"), Key::named_field("q r")]),
        ("[n + 1].a.a", key_path!([n + 1].a.a), vec![Key::get(8_u8), Key::named_field("a"), Key::named_field("a")]),
        ("[n + 1].a.bc", key_path!([n + 1].a.bc), vec![Key::get(8_u8), Key::named_field("a"), Key::named_field("bc")]),
        ("[n + 1].a.0", key_path!([n + 1].a.0), vec![Key::get(8_u8), Key::named_field("a"), Key::numbered_field(0)]),
        ("[n + 1].a.12", key_path!([n + 1].a.12), vec![Key::get(8_u8), Key::named_field("a"), Key::numbered_field(12)]),
        ("[n + 1].a[0]", key_path!([n + 1].a[0]), vec![Key::get(8_u8), Key::named_field("a"), Key::get(0)]),
        ("[n + 1].a[\"x\"]", key_path!([n + 1].a["x"]), vec![Key::get(8_u8), Key::named_field("a"), Key::get("x")]),
        ("[n + 1].a[n + 1]", key_path!([n + 1].a[n + 1]), vec![Key::get(8_u8), Key::named_field("a"), Key::get(8_u8)]),
        ("[n + 1].a::A", key_path!([n + 1].a::A), vec![Key::get(8_u8), Key::named_field("a"), Key::variant("A")]),
        ("[n + 1].a.\"q r\"", key_path!([n + 1].a."q r"), vec![Key::get(8_u8), Key::named_field("a"), Key::named_field("q r")]),
        ("[n + 1].bc.a", key_path!([n + 1].bc.a), vec![Key::get(8_u8), Key::named_field("bc"), Key::named_field("a")]),
        ("[n + 1].bc.bc", key_path!([n + 1].bc.bc), vec![Key::get(8_u8), Key::named_field("bc"), Key::named_field("bc")]),
        ("[n + 1].bc.0", key_path!([n + 1].bc.0), vec![Key::get(8_u8), Key::named_field("bc"), Key::numbered_field(0)]),
        ("[n + 1].bc.12", key_path!([n + 1].bc.12), vec![Key::get(8_u8), Key::named_field("bc"), Key::numbered_field(12)]),
        ("[n + 1].bc[0]", key_path!([n + 1].bc[0]), vec![Key::get(8_u8), Key::named_field("bc"), Key::get(0)]),
        ("[n + 1].bc[\"x\"]", key_path!([n + 1].bc["x"]), vec![Key::get(8_u8), Key::named_field("bc"), Key::get("x")]),
        ("[n + 1].bc[n + 1]", key_path!([n + 1].bc[n + 1]), vec![Key::get(8_u8), Key::named_field("bc"), Key::get(8_u8)]),
        ("[n + 1].bc::A", key_path!([n + 1].bc::A), vec![Key::get(8_u8), Key::named_field("bc"), Key::variant("A")]),
        ("[n + 1].bc.\"q r\"", key_path!([n + 1].bc."q r"), vec![Key::get(8_u8), Key::named_field("bc"), Key::named_field("q r")]),
        ("[n + 1].0.a", key_path!([n + 1].0.a), vec![Key::get(8_u8), Key::numbered_field(0), Key::named_field("a")]),
        ("[n + 1].0.bc", key_path!([n + 1].0.bc), vec![Key::get(8_u8), Key::numbered_field(0), Key::named_field("bc")]),
        ("[n + 1].0[0]", key_path!([n + 1].0[0]), vec![Key::get(8_u8), Key::numbered_field(0), Key::get(0)]),
        ("[n + 1].0[\"x\"]", key_path!([n + 1].0["x"]), vec![Key::get(8_u8), Key::numbered_field(0), Key::get("x")]),
        ("[n + 1].0[n + 1]", key_path!([n + 1].0[n + 1]), vec![Key::get(8_u8), Key::numbered_field(0), Key::get(8_u8)]),
        ("[n + 1].0::A", key_path!([n + 1].0::A), vec![Key::get(8_u8), Key::numbered_field(0), Key::variant("A")]),
        ("[n + 1].12.a", key_path!([n + 1].12.a), vec![Key::get(8_u8), Key::numbered_field(12), Key::named_field("a")]),
        ("[n + 1].12.bc", key_path!([n + 1].12.bc), vec![Key::get(8_u8), Key::numbered_field(12), Key::named_field("bc")]),
        ("[n + 1].12[0]", key_path!([n + 1].12[0]), vec![Key::get(8_u8), Key::numbered_field(12), Key::get(0)]),
        ("[n + 1].12[\"x\"]", key_path!([n + 1].12["x"]), vec![Key::get(8_u8), Key::numbered_field(12), Key::get("x")]),
        ("[n + 1].12[n + 1]", key_path!([n + 1].12[n + 1]), vec![Key::get(8_u8), Key::numbered_field(12), Key::get(8_u8)]),
        ("[n + 1].12::A", key_path!([n + 1].12::A), vec![Key::get(8_u8), Key::numbered_field(12), Key::variant("A")]),
        ("[n + 1][0].a", key_path!([n + 1][0].a), vec![Key::get(8_u8), Key::get(0), Key::named_field("a")]),
        ("[n + 1][0].bc", key_path!([n + 1][0].bc), vec![Key::get(8_u8), Key::get(0), Key::named_field("bc")]),
        ("[n + 1][0].0", key_path!([n + 1][0].0), vec![Key::get(8_u8), Key::get(0), Key::numbered_field(0)]),
        ("[n + 1][0].12", key_path!([n + 1][0].12), vec![Key::get(8_u8), Key::get(0), Key::numbered_field(12)]),
        ("[n + 1][0][0]", key_path!([n + 1][0][0]), vec![Key::get(8_u8), Key::get(0), Key::get(0)]),
        ("[n + 1][0][\"x\"]", key_path!([n + 1][0]["x"]), vec![Key::get(8_u8), Key::get(0), Key::get("x")]),
        ("[n + 1][0][n + 1]", key_path!([n + 1][0][n + 1]), vec![Key::get(8_u8), Key::get(0), Key::get(8_u8)]),
        ("[n + 1][0]::A", key_path!([n + 1][0]::A), vec![Key::get(8_u8), Key::get(0), Key::variant("A")]),
        ("[n + 1][0].\"q r\"", key_path!([n + 1][0]."q r"), vec![Key::get(8_u8), Key::get(0), Key::named_field("q r")]),
        ("[n + 1][\"x\"].a", key_path!([n + 1]["x"].a), vec![Key::get(8_u8), Key::get("x"), Key::named_field("a")]),
        ("[n + 1][\"x\"].bc", key_path!([n + 1]["x"].bc), vec![Key::get(8_u8), Key::get("x"), Key::named_field("bc")]),
        ("[n + 1][\"x\"].0", key_path!([n + 1]["x"].0), vec![Key::get(8_u8), Key::get("x"), Key::numbered_field(0)]),
        ("[n + 1][\"x\"].12", key_path!([n + 1]["x"].12), vec![Key::get(8_u8), Key::get("x"), Key::numbered_field(12)]),
        ("[n + 1][\"x\"][0]", key_path!([n + 1]["x"][0]), vec![Key::get(8_u8), Key::get("x"), Key::get(0)]),
        ("[n + 1][\"x\"][\"x\"]", key_path!([n + 1]["x"]["x"]), vec![Key::get(8_u8), Key::get("x"), Key::get("x")]),
        ("[n + 1][\"x\"][n + 1]", key_path!([n + 1]["x"][n + 1]), vec![Key::get(8_u8), Key::get("x"), Key::get(8_u8)]),
        ("[n + 1][\"x\"]::A", key_path!([n + 1]["x"]::A), vec![Key::get(8_u8), Key::get("x"), Key::variant("A")]),
        ("[n + 1][\"x\"].\"q r\"", key_path!([n + 1]["x"]."q r"), vec![Key::get(8_u8), Key::get("x"), Key::named_field("q r")]),
        ("[n + 1][n + 1].a", key_path!([n + 1][n + 1].a), vec![Key::get(8_u8), Key::get(8_u8), Key::named_field("a")]),
        ("[n + 1][n + 1].bc", key_path!([n + 1][n + 1].bc), vec![Key::get(8_u8), Key::get(8_u8), Key::named_field("bc")]),
        ("[n + 1][n + 1].0", key_path!([n + 1][n + 1].0), vec![Key::get(8_u8), Key::get(8_u8), Key::numbered_field(0)]),
        ("[n + 1][n + 1].12", key_path!([n + 1][n + 1].12), vec![Key::get(8_u8), Key::get(8_u8), Key::numbered_field(12)]),
        ("[n + 1][n + 1][0]", key_path!([n + 1][n + 1][0]), vec![Key::get(8_u8), Key::get(8_u8), Key::get(0)]),
        ("[n + 1][n + 1][\"x\"]", key_path!([n + 1][n + 1]["x"]), vec![Key::get(8_u8), Key::get(8_u8), Key::get("x")]),
        ("[n + 1][n + 1][n + 1]", key_path!([n + 1][n + 1][n + 1]), vec![Key::get(8_u8), Key::get(8_u8), Key::get(8_u8)]),
        ("[n + 1][n + 1]::A", key_path!([n + 1][n + 1]::A), vec![Key::get(8_u8), Key::get(8_u8), Key::variant("A")]),
        ("[n + 1][n + 1].\"q r\"", key_path!([n + 1][n + 1]."q r"), vec![Key::get(8_u8), Key::get(8_u8), Key::named_field("q r")]),
        ("[n + 1]::A.a", key_path!([n + 1]::A.a), vec![Key::get(8_u8), Key::variant("A"), Key::named_field("a")]),
        ("[n + 1]::A.bc", key_path!([n + 1]::A.bc), vec![Key::get(8_u8), Key::variant("A"), Key::named_field("bc")]),
        ("[n + 1]::A.0", key_path!([n + 1]::A.0), vec![Key::get(8_u8), Key::variant("A"), Key::numbered_field(0)]),
        ("[n + 1]::A.12", key_path!([n + 1]::A.12), vec![Key::get(8_u8), Key::variant("A"), Key::numbered_field(12)]),
        ("[n + 1]::A[0]", key_path!([n + 1]::A[0]), vec![Key::get(8_u8), Key::variant("A"), Key::get(0)]),
        ("[n + 1]::A[\"x\"]", key_path!([n + 1]::A["x"]), vec![Key::get(8_u8), Key::variant("A"), Key::get("x")]),
        ("[n + 1]::A[n + 1]", key_path!([n + 1]::A[n + 1]), vec![Key::get(8_u8), Key::variant("A"), Key::get(8_u8)]),
        ("[n + 1]::A::A", key_path!([n + 1]::A::A), vec![Key::get(8_u8), Key::variant("A"), Key::variant("A")]),
        ("[n + 1]::A.\"q r\"", key_path!([n + 1]::A."q r"), vec![Key::get(8_u8), Key::variant("A"), Key::named_field("q r")]),
        ("[n + 1].\"q r\".a", key_path!([n + 1]."q r".a), vec![Key::get(8_u8), Key::named_field("q r"), Key::named_field("a")]),
        ("[n + 1].\"q r\".bc", key_path!([n + 1]."q r".bc), vec![Key::get(8_u8), Key::named_field("q r"), Key::named_field("bc")]),
        ("[n + 1].\"q r\".0", key_path!([n + 1]."q r".0), vec![Key::get(8_u8), Key::named_field("q r"), Key::numbered_field(0)]),
        ("[n + 1].\"q r\".12", key_path!([n + 1]."q r".12), vec![Key::get(8_u8), Key::named_field("q r"), Key::numbered_field(12)]),
        ("[n + 1].\"q r\"[0]", key_path!([n + 1]."q r"[0]), vec![Key::get(8_u8), Key::named_field("q r"), Key::get(0)]),
        ("[n + 1].\"q r\"[\"x\"]", key_path!([n + 1]."q r"["x"]), vec![Key::get(8_u8), Key::named_field("q r"), Key::get("x")]),
        ("[n + 1].\"q r\"[n + 1]", key_path!([n + 1]."q r"[n + 1]), vec![Key::get(8_u8), Key::named_field("q r"), Key::get(8_u8)]),
        ("[n + 1].\"q r\"::A", key_path!([n + 1]."q r"::A), vec![Key::get(8_u8), Key::named_field("q r"), Key::variant("A")]),
        ("[n + 1].\"q r\".\"q r\"", key_path!([n + 1]."q r"."q r"), vec![Key::get(8_u8), Key::named_field("q r"), Key::named_field("q r")]),
        ("::A.a.a", key_path!(::A.a.a), vec![Key::variant("A"), Key::named_field("a"), Key::named_field("a")]),
        ("::A.a.bc", key_path!(::A.a.bc), vec![Key::variant("A"), Key::named_field("a"), Key::named_field("bc")]),
        ("::A.a.0", key_path!(::A.a.0), vec![Key::variant("A"), Key::named_field("a"), Key::numbered_field(0)]),
        ("::A.a.12", key_path!(::A.a.12), vec![Key::variant("A"), Key::named_field("a"), Key::numbered_field(12)]),
        ("::A.a[0]", key_path!(::A.a[0]), vec![Key::variant("A"), Key::named_field("a"), Key::get(0)]),
        ("::A.a[\"x\"]", key_path!(::A.a["x"]), vec![Key::variant("A"), Key::named_field("a"), Key::get("x")]),
        ("::A.a[n + 1]", key_path!(::A.a[n + 1]), vec![Key::variant("A"), Key::named_field("a"), Key::get(8_u8)]),
        ("::A.a::A", key_path!(::A.a::A), vec![Key::variant("A"), Key::named_field("a"), Key::variant("A")]),
        ("::A.a.\"q r\"", key_path!(::A.a."q r"), vec![Key::variant("A"), Key::named_field("a"), Key::named_field("q r")]),
        ("::A.bc.a", key_path!(::A.bc.a), vec![Key::variant("A"), Key::named_field("bc"), Key::named_field("a")]),
        ("::A.bc.bc", key_path!(::A.bc.bc), vec![Key::variant("A"), Key::named_field("bc"), Key::named_field("bc")]),
        ("::A.bc.0", key_path!(::A.bc.0), vec![Key::variant("A"), Key::named_field("bc"), Key::numbered_field(0)]),
        ("::A.bc.12", key_path!(::A.bc.12), vec![Key::variant("A"), Key::named_field("bc"), Key::numbered_field(12)]),
        ("::A.bc[0]", key_path!(::A.bc[0]), vec![Key::variant("A"), Key::named_field("bc"), Key::get(0)]),
        ("::A.bc[\"x\"]", key_path!(::A.bc["x"]), vec![Key::variant("A"), Key::named_field("bc"), Key::get("x")]),
        ("::A.bc[n + 1]", key_path!(::A.bc[n + 1]), vec![Key::variant("A"), Key::named_field("bc"), Key::get(8_u8)]),
        ("::A.bc::A", key_path!(::A.bc::A), vec![Key::variant("A"), Key::named_field("bc"), Key::variant("A")]),
        ("::A.bc.\"q r\"", key_path!(::A.bc."q r"), vec![Key::variant("A"), Key::named_field("bc"), Key::named_field("q r")]),
        ("::A.0.a", key_path!(::A.0.a), vec![Key::variant("A"), Key::numbered_field(0), Key::named_field("a")]),
        ("::A.0.bc", key_path!(::A.0.bc), vec![Key::variant("A"), Key::numbered_field(0), Key::named_field("bc")]),
        ("::A.0[0]", key_path!(::A.0[0]), vec![Key::variant("A"), Key::numbered_field(0), Key::get(0)]),
        ("::A.0[\"x\"]", key_path!(::A.0["x"]), vec![Key::variant("A"), Key::numbered_field(0), Key::get("x")]),
        ("::A.0[n + 1]", key_path!(::A.0[n + 1]), vec![Key::variant("A"), Key::numbered_field(0), Key::get(8_u8)]),
        ("::A.0::A", key_path!(::A.0::A), vec![Key::variant("A"), Key::numbered_field(0), Key::variant("A")]),
        ("::A.12.a", key_path!(::A.12.a), vec![Key::variant("A"), Key::numbered_field(12), Key::named_field("a")]),
        ("::A.12.bc", key_path!(::A.12.bc), vec![Key::variant("A"), Key::numbered_field(12), Key::named_field("bc")]),
        ("::A.12[0]", key_path!(::A.12[0]), vec![Key::variant("A"), Key::numbered_field(12), Key::get(0)]),
        ("::A.12[\"x\"]", key_path!(::A.12["x"]), vec![Key::variant("A"), Key::numbered_field(12), Key::get("x")]),
        ("::A.12[n + 1]", key_path!(::A.12[n + 1]), vec![Key::variant("A"), Key::numbered_field(12), Key::get(8_u8)]),
        ("::A.12::A", key_path!(::A.12::A), vec![Key::variant("A"), Key::numbered_field(12), Key::variant("A")]),
        ("::A[0].a", key_path!(::A[0].a), vec![Key::variant("A"), Key::get(0), Key::named_field("a")]),
        ("::A[0].bc", key_path!(::A[0].bc), vec![Key::variant("A"), Key::get(0), Key::named_field("bc")]),
        ("::A[0].0", key_path!(::A[0].0), vec![Key::variant("A"), Key::get(0), Key::numbered_field(0)]),
        ("::A[0].12", key_path!(::A[0].12), vec![Key::variant("A"), Key::get(0), Key::numbered_field(12)]),
        ("::A[0][0]", key_path!(::A[0][0]), vec![Key::variant("A"), Key::get(0), Key::get(0)]),
        ("::A[0][\"x\"]", key_path!(::A[0]["x"]), vec![Key::variant("A"), Key::get(0), Key::get("x")]),
        ("::A[0][n + 1]", key_path!(::A[0][n + 1]), vec![Key::variant("A"), Key::get(0), Key::get(8_u8)]),
        ("::A[0]::A", key_path!(::A[0]::A), vec![Key::variant("A"), Key::get(0), Key::variant("A")]),
        ("::A[0].\"q r\"", key_path!(::A[0]."q r"), vec![Key::variant("A"), Key::get(0), Key::named_field("q r")]),
        ("::A[\"x\"].a", key_path!(::A["x"].a), vec![Key::variant("A"), Key::get("x"), Key::named_field("a")]),
        ("::A[\"x\"].bc", key_path!(::A["x"].bc), vec![Key::variant("A"), Key::get("x"), Key::named_field("bc")]),
        ("::A[\"x\"].0", key_path!(::A["x"].0), vec![Key::variant("A"), Key::get("x"), Key::numbered_field(0)]),
        ("::A[\"x\"].12", key_path!(::A["x"].12), vec![Key::variant("A"), Key::get("x"), Key::numbered_field(12)]),
        ("::A[\"x\"][0]", key_path!(::A["x"][0]), vec![Key::variant("A"), Key::get("x"), Key::get(0)]),
        ("::A[\"x\"][\"x\"]", key_path!(::A["x"]["x"]), vec![Key::variant("A"), Key::get("x"), Key::get("x")]),
        ("::A[\"x\"][n + 1]", key_path!(::A["x"][n + 1]), vec![Key::variant("A"), Key::get("x"), Key::get(8_u8)]),
        ("::A[\"x\"]::A", key_path!(::A["x"]::A), vec![Key::variant("A"), Key::get("x"), Key::variant("A")]),
        ("::A[\"x\"].\"q r\"", key_path!(::A["x"]."q r"), vec![Key::variant("A"), Key::get("x"), Key::named_field("q r")]),
        ("::A[n + 1].a", key_path!(::A[n + 1].a), vec![Key::variant("A"), Key::get(8_u8), Key::named_field("a")]),
        ("::A[n + 1].bc", key_path!(::A[n + 1].bc), vec![Key::variant("A"), Key::get(8_u8), Key::named_field("bc")]),
        ("::A[n + 1].0", key_path!(::A[n + 1].0), vec![Key::variant("A"), Key::get(8_u8), Key::numbered_field(0)]),
        ("::A[n + 1].12", key_path!(::A[n + 1].12), vec![Key::variant("A"), Key::get(8_u8), Key::numbered_field(12)]),
        ("::A[n + 1][0]", key_path!(::A[n + 1][0]), vec![Key::variant("A"), Key::get(8_u8), Key::get(0)]),
        ("::A[n + 1][\"x\"]", key_path!(::A[n + 1]["x"]), vec![Key::variant("A"), Key::get(8_u8), Key::get("x")]),
        ("::A[n + 1][n + 1]", key_path!(::A[n + 1][n + 1]), vec![Key::variant("A"), Key::get(8_u8), Key::get(8_u8)]),
        ("::A[n + 1]::A", key_path!(::A[n + 1]::A), vec![Key::variant("A"), Key::get(8_u8), Key::variant("A")]),
        ("::A[n + 1].\"q r\"", key_path!(::A[n + 1]."q r"), vec![Key::variant("A"), Key::get(8_u8), Key::named_field("q r")]),
        ("::A::A.a", key_path!(::A::A.a), vec![Key::variant("A"), Key::variant("A"), Key::named_field("a")]),
        ("::A::A.bc", key_path!(::A::A.bc), vec![Key::variant("A"), Key::variant("A"), Key::named_field("bc")]),
        ("::A::A.0", key_path!(::A::A.0), vec![Key::variant("A"), Key::variant("A"), Key::numbered_field(0)]),
        ("::A::A.12", key_path!(::A::A.12), vec![Key::variant("A"), Key::variant("A"), Key::numbered_field(12)]),
        ("::A::A[0]", key_path!(::A::A[0]), vec![Key::variant("A"), Key::variant("A"), Key::get(0)]),
        ("::A::A[\"x\"]", key_path!(::A::A["x"]), vec![Key::variant("A"), Key::variant("A"), Key::get("x")]),
        ("::A::A[n + 1]", key_path!(::A::A[n + 1]), vec![Key::variant("A"), Key::variant("A"), Key::get(8_u8)]),
        ("::A::A::A", key_path!(::A::A::A), vec![Key::variant("A"), Key::variant("A"), Key::variant("A")]),
        ("::A::A.\"q r\"", key_path!(::A::A."q r"), vec![Key::variant("A"), Key::variant("A"), Key::named_field("q r")]),
        ("::A.\"q r\".a", key_path!(::A."q r".a), vec![Key::variant("A"), Key::named_field("q r"), Key::named_field("a")]),
        ("::A.\"q r\".bc", key_path!(::A."q r".bc), vec![Key::variant("A"), Key::named_field("q r"), Key::named_field("bc")]),
        ("::A.\"q r\".0", key_path!(::A."q r".0), vec![Key::variant("A"), Key::named_field("q r"), Key::numbered_field(0)]),
        ("::A.\"q r\".12", key_path!(::A."q r".12), vec![Key::variant("A"), Key::named_field("q r"), Key::numbered_field(12)]),
        ("::A.\"q r\"[0]", key_path!(::A."q r"[0]), vec![Key::variant("A"), Key::named_field("q r"), Key::get(0)]),
        ("::A.\"q r\"[\"x\"]", key_path!(::A."q r"["x"]), vec![Key::variant("A"), Key::named_field("q r"), Key::get("x")]),
        ("::A.\"q r\"[n + 1]", key_path!(::A."q r"[n + 1]), vec![Key::variant("A"), Key::named_field("q r"), Key::get(8_u8)]),
        ("::A.\"q r\"::A", key_path!(::A."q r"::A), vec![Key::variant("A"), Key::named_field("q r"), Key::variant("A")]),
        ("::A.\"q r\".\"q r\"", key_path!(::A."q r"."q r"), vec![Key::variant("A"), Key::named_field("q r"), Key::named_field("q r")]),
        (".\"q r\".a.a", key_path!(."q r".a.a), vec![Key::named_field("q r"), Key::named_field("a"), Key::named_field("a")]),
        (".\"q r\".a.bc", key_path!(."q r".a.bc), vec![Key::named_field("q r"), Key::named_field("a"), Key::named_field("bc")]),
        (".\"q r\".a.0", key_path!(."q r".a.0), vec![Key::named_field("q r"), Key::named_field("a"), Key::numbered_field(0)]),
        (".\"q r\".a.12", key_path!(."q r".a.12), vec![Key::named_field("q r"), Key::named_field("a"), Key::numbered_field(12)]),
        (".\"q r\".a[0]", key_path!(."q r".a[0]), vec![Key::named_field("q r"), Key::named_field("a"), Key::get(0)]),
        (".\"q r\".a[\"x\"]", key_path!(."q r".a["x"]), vec![Key::named_field("q r"), Key::named_field("a"), Key::get("x")]),
        (".\"q r\".a[n + 1]", key_path!(."q r".a[n + 1]), vec![Key::named_field("q r"), Key::named_field("a"), Key::get(8_u8)]),
        (".\"q r\".a::A", key_path!(."q r".a::A), vec![Key::named_field("q r"), Key::named_field("a"), Key::variant("A")]),
        (".\"q r\".a.\"q r\"", key_path!(."q r".a."q r"), vec![Key::named_field("q r"), Key::named_field("a"), Key::named_field("q r")]),
        (".\"q r\".bc.a", key_path!(."q r".bc.a), vec![Key::named_field("q r"), Key::named_field("bc"), Key::named_field("a")]),
        (".\"q r\".bc.bc", key_path!(."q r".bc.bc), vec![Key::named_field("q r"), Key::named_field("bc"), Key::named_field("bc")]),
        (".\"q r\".bc.0", key_path!(."q r".bc.0), vec![Key::named_field("q r"), Key::named_field("bc"), Key::numbered_field(0)]),
        (".\"q r\".bc.12", key_path!(."q r".bc.12), vec![Key::named_field("q r"), Key::named_field("bc"), Key::numbered_field(12)]),
        (".\"q r\".bc[0]", key_path!(."q r".bc[0]), vec![Key::named_field("q r"), Key::named_field("bc"), Key::get(0)]),
        (".\"q r\".bc[\"x\"]", key_path!(."q r".bc["x"]), vec![Key::named_field("q r"), Key::named_field("bc"), Key::get("x")]),
        (".\"q r\".bc[n + 1]", key_path!(."q r".bc[n + 1]), vec![Key::named_field("q r"), Key::named_field("bc"), Key::get(8_u8)]),
        (".\"q r\".bc::A", key_path!(."q r".bc::A), vec![Key::named_field("q r"), Key::named_field("bc"), Key::variant("A")]),
        (".\"q r\".bc.\"q r\"", key_path!(."q r".bc."q r"), vec![Key::named_field("q r"), Key::named_field("bc"), Key::named_field("q r")]),
        (".\"q r\".0.a", key_path!(."q r".0.a), vec![Key::named_field("q r"), Key::numbered_field(0), Key::named_field("a")]),
        (".\"q r\".0.bc", key_path!(."q r".0.bc), vec![Key::named_field("q r"), Key::numbered_field(0), Key::named_field("bc")]),
        (".\"q r\".0[0]", key_path!(."q r".0[0]), vec![Key::named_field("q r"), Key::numbered_field(0), Key::get(0)]),
        (".\"q r\".0[\"x\"]", key_path!(."q r".0["x"]), vec![Key::named_field("q r"), Key::numbered_field(0), Key::get("x")]),
        (".\"q r\".0[n + 1]", key_path!(."q r".0[n + 1]), vec![Key::named_field("q r"), Key::numbered_field(0), Key::get(8_u8)]),
        (".\"q r\".0::A", key_path!(."q r".0::A), vec![Key::named_field("q r"), Key::numbered_field(0), Key::variant("A")]),
        (".\"q r\".12.a", key_path!(."q r".12.a), vec![Key::named_field("q r"), Key::numbered_field(12), Key::named_field("a")]),
        (".\"q r\".12.bc", key_path!(."q r".12.bc), vec![Key::named_field("q r"), Key::numbered_field(12), Key::named_field("bc")]),
        (".\"q r\".12[0]", key_path!(."q r".12[0]), vec![Key::named_field("q r"), Key::numbered_field(12), Key::get(0)]),
        (".\"q r\".12[\"x\"]", key_path!(."q r".12["x"]), vec![Key::named_field("q r"), Key::numbered_field(12), Key::get("x")]),
        (".\"q r\".12[n + 1]", key_path!(."q r".12[n + 1]), vec![Key::named_field("q r"), Key::numbered_field(12), Key::get(8_u8)]),
        (".\"q r\".12::A", key_path!(."q r".12::A), vec![Key::named_field("q r"), Key::numbered_field(12), Key::variant("A")]),
        (".\"q r\"[0].a", key_path!(."q r"[0].a), vec![Key::named_field("q r"), Key::get(0), Key::named_field("a")]),
        (".\"q r\"[0].bc", key_path!(."q r"[0].bc), vec![Key::named_field("q r"), Key::get(0), Key::named_field("bc")]),
        (".\"q r\"[0].0", key_path!(."q r"[0].0), vec![Key::named_field("q r"), Key::get(0), Key::numbered_field(0)]),
        (".\"q r\"[0].12", key_path!(."q r"[0].12), vec![Key::named_field("q r"), Key::get(0), Key::numbered_field(12)]),
        (".\"q r\"[0][0]", key_path!(."q r"[0][0]), vec![Key::named_field("q r"), Key::get(0), Key::get(0)]),
        (".\"q r\"[0][\"x\"]", key_path!(."q r"[0]["x"]), vec![Key::named_field("q r"), Key::get(0), Key::get("x")]),
        (".\"q r\"[0][n + 1]", key_path!(."q r"[0][n + 1]), vec![Key::named_field("q r"), Key::get(0), Key::get(8_u8)]),
        (".\"q r\"[0]::A", key_path!(."q r"[0]::A), vec![Key::named_field("q r"), Key::get(0), Key::variant("A")]),
        (".\"q r\"[0].\"q r\"", key_path!(."q r"[0]."q r"), vec![Key::named_field("q r"), Key::get(0), Key::named_field("q r")]),
        (".\"q r\"[\"x\"].a", key_path!(."q r"["x"].a), vec![Key::named_field("q r"), Key::get("x"), Key::named_field("a")]),
        (".\"q r\"[\"x\"].bc", key_path!(."q r"["x"].bc), vec![Key::named_field("q r"), Key::get("x"), Key::named_field("bc")]),
        (".\"q r\"[\"x\"].0", key_path!(."q r"["x"].0), vec![Key::named_field("q r"), Key::get("x"), Key::numbered_field(0)]),
        (".\"q r\"[\"x\"].12", key_path!(."q r"["x"].12), vec![Key::named_field("q r"), Key::get("x"), Key::numbered_field(12)]),
        (".\"q r\"[\"x\"][0]", key_path!(."q r"["x"][0]), vec![Key::named_field("q r"), Key::get("x"), Key::get(0)]),
        (".\"q r\"[\"x\"][\"x\"]", key_path!(."q r"["x"]["x"]), vec![Key::named_field("q r"), Key::get("x"), Key::get("x")]),
        (".\"q r\"[\"x\"][n + 1]", key_path!(."q r"["x"][n + 1]), vec![Key::named_field("q r"), Key::get("x"), Key::get(8_u8)]),
        (".\"q r\"[\"x\"]::A", key_path!(."q r"["x"]::A), vec![Key::named_field("q r"), Key::get("x"), Key::variant("A")]),
        (".\"q r\"[\"x\"].\"q r\"", key_path!(."q r"["x"]."q r"), vec![Key::named_field("q r"), Key::get("x"), Key::named_field("q r")]),
        (".\"q r\"[n + 1].a", key_path!(."q r"[n + 1].a), vec![Key::named_field("q r"), Key::get(8_u8), Key::named_field("a")]),
        (".\"q r\"[n + 1].bc", key_path!(."q r"[n + 1].bc), vec![Key::named_field("q r"), Key::get(8_u8), Key::named_field("bc")]),
        (".\"q r\"[n + 1].0", key_path!(."q r"[n + 1].0), vec![Key::named_field("q r"), Key::get(8_u8), Key::numbered_field(0)]),
        (".\"q r\"[n + 1].12", key_path!(."q r"[n + 1].12), vec![Key::named_field("q r"), Key::get(8_u8), Key::numbered_field(12)]),
        (".\"q r\"[n + 1][0]", key_path!(."q r"[n + 1][0]), vec![Key::named_field("q r"), Key::get(8_u8), Key::get(0)]),
        (".\"q r\"[n + 1][\"x\"]", key_path!(."q r"[n + 1]["x"]), vec![Key::named_field("q r"), Key::get(8_u8), Key::get("x")]),
        (".\"q r\"[n + 1][n + 1]", key_path!(."q r"[n + 1][n + 1]), vec![Key::named_field("q r"), Key::get(8_u8), Key::get(8_u8)]),
        (".\"q r\"[n + 1]::A", key_path!(."q r"[n + 1]::A), vec![Key::named_field("q r"), Key::get(8_u8), Key::variant("A")]),
        (".\"q r\"[n + 1].\"q r\"", key_path!(."q r"[n + 1]."q r"), vec![Key::named_field("q r"), Key::get(8_u8), Key::named_field("q r")]),
        (".\"q r\"::A.a", key_path!(."q r"::A.a), vec![Key::named_field("q r"), Key::variant("A"), Key::named_field("a")]),
        (".\"q r\"::A.bc", key_path!(."q r"::A.bc), vec![Key::named_field("q r"), Key::variant("A"), Key::named_field("bc")]),
        (".\"q r\"::A.0", key_path!(."q r"::A.0), vec![Key::named_field("q r"), Key::variant("A"), Key::numbered_field(0)]),
        (".\"q r\"::A.12", key_path!(."q r"::A.12), vec![Key::named_field("q r"), Key::variant("A"), Key::numbered_field(12)]),
        (".\"q r\"::A[0]", key_path!(."q r"::A[0]), vec![Key::named_field("q r"), Key::variant("A"), Key::get(0)]),
        (".\"q r\"::A[\"x\"]", key_path!(."q r"::A["x"]), vec![Key::named_field("q r"), Key::variant("A"), Key::get("x")]),
        (".\"q r\"::A[n + 1]", key_path!(."q r"::A[n + 1]), vec![Key::named_field("q r"), Key::variant("A"), Key::get(8_u8)]),
        (".\"q r\"::A::A", key_path!(."q r"::A::A), vec![Key::named_field("q r"), Key::variant("A"), Key::variant("A")]),
        (".\"q r\"::A.\"q r\"", key_path!(."q r"::A."q r"), vec![Key::named_field("q r"), Key::variant("A"), Key::named_field("q r")]),
        (".\"q r\".\"q r\".a", key_path!(."q r"."q r".a), vec![Key::named_field("q r"), Key::named_field("q r"), Key::named_field("a")]),
        (".\"q r\".\"q r\".bc", key_path!(."q r"."q r".bc), vec![Key::named_field("q r"), Key::named_field("q r"), Key::named_field("bc")]),
        (".\"q r\".\"q r\".0", key_path!(."q r"."q r".0), vec![Key::named_field("q r"), Key::named_field("q r"), Key::numbered_field(0)]),
        (".\"q r\".\"q r\".12", key_path!(."q r"."q r".12), vec![Key::named_field("q r"), Key::named_field("q r"), Key::numbered_field(12)]),
        (".\"q r\".\"q r\"[0]", key_path!(."q r"."q r"[0]), vec![Key::named_field("q r"), Key::named_field("q r"), Key::get(0)]),
        (".\"q r\".\"q r\"[\"x\"]", key_path!(."q r"."q r"["x"]), vec![Key::named_field("q r"), Key::named_field("q r"), Key::get("x")]),
        (".\"q r\".\"q r\"[n + 1]", key_path!(."q r"."q r"[n + 1]), vec![Key::named_field("q r"), Key::named_field("q r"), Key::get(8_u8)]),
        (".\"q r\".\"q r\"::A", key_path!(."q r"."q r"::A), vec![Key::named_field("q r"), Key::named_field("q r"), Key::variant("A")]),
        (".\"q r\".\"q r\".\"q r\"", key_path!(."q r"."q r"."q r"), vec![Key::named_field("q r"), Key::named_field("q r"), Key::named_field("q r")]),
    ]
}
