//! From the real syntax tree to the reference one.  The only file that names its types.

use crate::lang as l;
use butte_build::ast::types as a;

fn doc(c: &a::Comment) -> l::Doc {
    c.lines.iter().map(|s| s.to_string()).collect()
}
fn path(q: &a::QualifiedIdent) -> Vec<String> {
    q.parts.iter().map(|p| p.raw.to_string()).collect()
}
fn scalar(s: &a::Scalar) -> l::Lit {
    match s {
        a::Scalar::Integer(i) => l::Lit::Int(*i),
        a::Scalar::Float(f) => l::Lit::Float(*f),
        a::Scalar::Boolean(b) => l::Lit::Bool(*b),
    }
}
fn single(s: &a::Single) -> l::Lit {
    match s {
        a::Single::Scalar(s) => scalar(s),
        a::Single::String(s) => l::Lit::Str(s.to_string()),
    }
}
fn meta(m: &Option<a::Metadata>) -> l::Meta {
    m.as_ref().map(|m| {
        let mut v: Vec<_> = m.values.iter().map(|(k, v)| (k.raw.to_string(), v.as_ref().map(single))).collect();
        v.sort_by(|x, y| x.0.cmp(&y.0));
        v
    })
}
fn ty(t: &a::Type) -> l::Ty {
    use a::Type::*;
    l::Ty::B(match t {
        Bool => "bool",
        Byte => "byte",
        UByte => "ubyte",
        Short => "short",
        UShort => "ushort",
        Int => "int",
        UInt => "uint",
        Float => "float",
        Long => "long",
        ULong => "ulong",
        Double => "double",
        Int8 => "int8",
        UInt8 => "uint8",
        Int16 => "int16",
        UInt16 => "uint16",
        Int32 => "int32",
        UInt32 => "uint32",
        Int64 => "int64",
        UInt64 => "uint64",
        Float32 => "float32",
        Float64 => "float64",
        String => "string",
        Array(t) => return l::Ty::Vec(Box::new(ty(t))),
        Ident(q) => return l::Ty::Name(path(q)),
    })
}
fn field(f: &a::Field) -> l::Field {
    l::Field {
        doc: doc(&f.doc),
        name: f.id.raw.to_string(),
        ty: ty(&f.ty),
        default: f.default_value.as_ref().map(|d| match d {
            a::DefaultValue::Scalar(s) => scalar(s),
            a::DefaultValue::Ident(i) => l::Lit::Ident(i.raw.to_string()),
        }),
        meta: meta(&f.metadata),
    }
}
fn val(v: &a::EnumVariant) -> l::Val {
    l::Val { doc: doc(&v.doc), name: v.id.raw.to_string(), value: v.value }
}
fn obj(o: &a::Object) -> Vec<(String, l::JVal)> {
    let mut v: Vec<_> = o.values.iter().map(|(k, v)| (k.raw.to_string(), jval(v))).collect();
    v.sort_by(|x, y| x.0.cmp(&y.0));
    v
}
fn jval(v: &a::Value) -> l::JVal {
    match v {
        a::Value::Single(s) => l::JVal::Lit(single(s)),
        a::Value::Object(o) => l::JVal::Obj(obj(o)),
        a::Value::List(x) => l::JVal::List(x.iter().map(jval).collect()),
    }
}
fn decl(e: &a::Element) -> l::Decl {
    use l::Decl::*;
    match e {
        a::Element::Namespace(n) => Namespace { doc: doc(&n.doc), path: path(&n.ident) },
        a::Element::Table(t) => Table { doc: doc(&t.doc), name: t.id.raw.into(), meta: meta(&t.metadata), fields: t.fields.iter().map(field).collect() },
        a::Element::Struct(t) => Struct { doc: doc(&t.doc), name: t.id.raw.into(), meta: meta(&t.metadata), fields: t.fields.iter().map(field).collect() },
        a::Element::Enum(t) => Enum {
            doc: doc(&t.doc),
            name: t.id.raw.into(),
            base: ty(&t.base_type),
            meta: meta(&t.metadata),
            vals: t.variants.iter().map(val).collect(),
        },
        a::Element::Union(t) => Union { doc: doc(&t.doc), name: t.id.raw.into(), meta: meta(&t.metadata), vals: t.variants.iter().map(val).collect() },
        a::Element::Root(r) => Root(r.typename.raw.into()),
        a::Element::FileExtension(f) => FileExt { doc: doc(&f.doc), ext: f.ext.into() },
        a::Element::FileIdentifier(f) => FileId { doc: doc(&f.doc), id: String::from_utf8_lossy(&f.id).to_string() },
        a::Element::Attribute(x) => Attr(x.attr.raw.into()),
        a::Element::Rpc(r) => Rpc {
            doc: doc(&r.doc),
            name: r.id.raw.into(),
            methods: r
                .methods
                .iter()
                .map(|m| l::Method {
                    doc: doc(&m.doc),
                    name: m.id.raw.into(),
                    req: path(&m.request_type),
                    resp: path(&m.response_type),
                    meta: meta(&m.metadata),
                })
                .collect(),
        },
        a::Element::Object(o) => Object { doc: doc(&o.doc), vals: obj(o) },
    }
}

fn sort_meta(m: &mut l::Meta) {
    if let Some(v) = m {
        v.sort_by(|x, y| x.0.cmp(&y.0));
    }
}
fn sort_obj(v: &mut Vec<(String, l::JVal)>) {
    v.sort_by(|x, y| x.0.cmp(&y.0));
    for (_, x) in v {
        sort_jval(x);
    }
}
fn sort_jval(v: &mut l::JVal) {
    match v {
        l::JVal::Obj(o) => sort_obj(o),
        l::JVal::List(x) => x.iter_mut().for_each(sort_jval),
        _ => (),
    }
}
/// attributes and members in an order of their own
pub fn canonical(mut s: l::Schema) -> l::Schema {
    for d in &mut s.decls {
        match d {
            l::Decl::Table { meta, fields, .. } | l::Decl::Struct { meta, fields, .. } => {
                sort_meta(meta);
                for f in fields {
                    sort_meta(&mut f.meta);
                }
            }
            l::Decl::Enum { meta, .. } | l::Decl::Union { meta, .. } => sort_meta(meta),
            l::Decl::Rpc { methods, .. } => methods.iter_mut().for_each(|m| sort_meta(&mut m.meta)),
            l::Decl::Object { vals, .. } => sort_obj(vals),
            _ => (),
        }
    }
    s
}

/// Err: panicked. Ok(None): refused, also when something is left over.
pub fn parse(text: &str) -> Result<Option<l::Schema>, String> {
    mc::guard(|| match butte_build::ast::parser::schema_decl(text) {
        Ok((rest, s)) if rest.is_empty() => Some(l::Schema {
            includes: s.includes.iter().map(|i| (doc(&i.doc), i.path.to_string_lossy().to_string())).collect(),
            decls: s.elements.iter().map(decl).collect(),
        }),
        _ => None,
    })
}
