//! C23: the names computed for every identifier, with the module that the
//! derives take them from.
use crate::all::check_for;
use crate::all::sym::*;

#[allow(dead_code)]
#[path = "/repo/deser-derive/src/attr.rs"]
mod attr;

const STYLES: [&str; 9] = ["", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];
const KEYWORDS: [&str; 52] = ["as", "do", "fn", "if", "in", "box", "dyn", "for", "gen", "let", "mod", "mut", "pub", "ref", "try", "use", "else", "enum", "impl", "loop", "move", "priv",
    "self", "Self", "true", "type", "async", "await", "break", "const", "crate", "false", "final", "macro", "match", "super", "trait", "where", "while", "yield", "become", "extern", "return",
    "static", "struct", "typeof", "unsafe", "unsized", "virtual", "abstract", "continue", "override"];
fn is_upper(c: u8) -> bool {
    and(c >= b'A', c <= b'Z')
}
fn is_lower(c: u8) -> bool {
    and(c >= b'a', c <= b'z')
}
fn is_num(c: u8) -> bool {
    and(c >= b'0', c <= b'9')
}
fn upper(c: u8) -> u8 {
    if is_lower(c) { c - 32 } else { c }
}
fn lower(c: u8) -> u8 {
    if is_upper(c) { c + 32 } else { c }
}
/// The documented spelling of the words of an identifier; `seps[i]` underscores
/// (or word starts, in variants) stand before word `i`.
fn style(style: usize, field: bool, id: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    // words: runs between underscores (fields), capitals and what follows (variants)
    let mut start = true;
    let mut first = true;
    for (i, &c) in id.iter().enumerate() {
        let sep = field && c == b'_';
        let head = if field { start && !sep } else { is_upper(c) };
        match style {
            0 => out.push(c),
            1 => out.push(lower(c)),
            2 => out.push(upper(c)),
            3 | 4 => {
                if !sep {
                    out.push(if head && (style == 3 || !first) { upper(c) } else if head { lower(c) } else { c });
                }
            }
            _ => {
                let (mark, up) = [(b'_', false), (b'_', true), (b'-', false), (b'-', true)][style - 5];
                if sep {
                    out.push(mark);
                } else {
                    if !field && head && i > 0 {
                        out.push(mark);
                    }
                    out.push(if up { upper(c) } else { lower(c) });
                }
            }
        }
        start = sep;
        first &= sep;
    }
    out
}
fn identifier(n: u64, field: bool) -> String {
    let mut v = Vec::new();
    for i in 0..n {
        let c = byte();
        if field {
            assume(or(is_lower(c), or(c == b'_', and(i > 0, is_num(c)))));
        } else if i == 0 {
            assume(is_upper(c));
        } else {
            assume(or(is_lower(c), or(is_upper(c), is_num(c))));
        }
        v.push(c);
    }
    assume(n > 1 || v[0] != b'_');
    for w in KEYWORDS.iter() {
        if w.len() == v.len() {
            assume(!same(w.as_bytes(), &v));
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn input(st: usize, body: &str) -> syn::DeriveInput {
    let at = if st == 0 { String::new() } else { format!("#[deser(rename_all = \"{}\")] ", STYLES[st]) };
    syn::parse_str(&(at + body)).unwrap()
}
harness! {
    // params: most characters, style
    n_field_ident {
        let st = param(1) as usize;
        let mut s = input(st, "struct S { #[deser(alias = \"other\")] x: u8, #[deser(rename = \"z-Y\")] y: u8 }");
        let id = identifier(1 + choose(param(0)), true);
        if let syn::Data::Struct(syn::DataStruct { fields: syn::Fields::Named(f), .. }) = &mut s.data {
            for x in f.named.iter_mut() {
                x.ident = Some(syn::Ident::new(&id, proc_macro2::Span::call_site()));
            }
        }
        let c = attr::ContainerAttrs::of(&s).unwrap_or_else(|_| unreachable!());
        if let syn::Data::Struct(d) = &s.data {
            let v: Vec<&syn::Field> = d.fields.iter().collect();
            let a = attr::FieldAttrs::of(v[0]).unwrap_or_else(|_| unreachable!());
            check_for(23, same(a.name(&c).as_bytes(), &style(st, true, id.as_bytes())), "a field name is not spelled in the chosen style");
            check_for(23, a.aliases().len() == 1 && a.aliases()[0] == "other", "an alias changed");
            let a = attr::FieldAttrs::of(v[1]).unwrap_or_else(|_| unreachable!());
            check_for(23, same(a.name(&c).as_bytes(), b"z-Y") && a.aliases().is_empty(), "an explicit name does not win over the style");
        }
        reach(1);
    }
    n_variant_ident {
        let st = param(1) as usize;
        let mut s = input(st, "enum S { #[deser(alias = \"other\")] X, #[deser(rename = \"z-Y\")] Y }");
        let id = identifier(1 + choose(param(0)), false);
        if let syn::Data::Enum(e) = &mut s.data {
            for x in e.variants.iter_mut() {
                x.ident = syn::Ident::new(&id, proc_macro2::Span::call_site());
            }
        }
        let c = attr::ContainerAttrs::of(&s).unwrap_or_else(|_| unreachable!());
        if let syn::Data::Enum(d) = &s.data {
            let v: Vec<&syn::Variant> = d.variants.iter().collect();
            let a = attr::EnumVariantAttrs::of(v[0]).unwrap_or_else(|_| unreachable!());
            check_for(23, same(a.name(&c).as_bytes(), &style(st, false, id.as_bytes())), "a variant name is not spelled in the chosen style");
            check_for(23, a.aliases().len() == 1 && a.aliases()[0] == "other", "an alias changed");
            let a = attr::EnumVariantAttrs::of(v[1]).unwrap_or_else(|_| unreachable!());
            check_for(23, same(a.name(&c).as_bytes(), b"z-Y") && a.aliases().is_empty(), "an explicit name does not win over the style");
        }
        reach(1);
    }
}
