//! C15: schemas.
use super::Def;
use crate::engine::*;
use crate::fx::*;
use crate::typed::all_types;
use parquet2::metadata::{FileMetaData, SchemaDescriptor};
use parquet2::read::read_metadata;
use parquet2::schema::io_message::from_message;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as pf;
use std::io::Cursor;

const REPS: [Repetition; 3] = [Repetition::Required, Repetition::Optional, Repetition::Repeated];

// ---------------------------------------------------------------- the format's thrift form
fn rep_thrift(r: Repetition) -> pf::FieldRepetitionType {
    pf::FieldRepetitionType(match r {
        Repetition::Required => 0,
        Repetition::Optional => 1,
        Repetition::Repeated => 2,
    })
}
fn conv_thrift(c: &PrimitiveConvertedType) -> (i32, Option<(i32, i32)>) {
    use PrimitiveConvertedType::*;
    let n = match c {
        Utf8 => 0,
        Enum => 4,
        Decimal(p, s) => return (5, Some((*p as i32, *s as i32))),
        Date => 6,
        TimeMillis => 7,
        TimeMicros => 8,
        TimestampMillis => 9,
        TimestampMicros => 10,
        Uint8 => 11,
        Uint16 => 12,
        Uint32 => 13,
        Uint64 => 14,
        Int8 => 15,
        Int16 => 16,
        Int32 => 17,
        Int64 => 18,
        Json => 19,
        Bson => 20,
        Interval => 21,
    };
    (n, None)
}
fn unit(u: &TimeUnit) -> pf::TimeUnit {
    match u {
        TimeUnit::Milliseconds => pf::TimeUnit::MILLIS(Default::default()),
        TimeUnit::Microseconds => pf::TimeUnit::MICROS(Default::default()),
        TimeUnit::Nanoseconds => pf::TimeUnit::NANOS(Default::default()),
    }
}
fn int(i: &IntegerType) -> (i8, bool) {
    use IntegerType::*;
    match i {
        Int8 => (8, true),
        Int16 => (16, true),
        Int32 => (32, true),
        Int64 => (64, true),
        UInt8 => (8, false),
        UInt16 => (16, false),
        UInt32 => (32, false),
        UInt64 => (64, false),
    }
}
fn logical_thrift(l: &PrimitiveLogicalType) -> pf::LogicalType {
    use pf::LogicalType as T;
    use PrimitiveLogicalType::*;
    match l {
        String => T::STRING(Default::default()),
        Enum => T::ENUM(Default::default()),
        Decimal(p, s) => T::DECIMAL(pf::DecimalType { precision: *p as i32, scale: *s as i32 }),
        Date => T::DATE(Default::default()),
        Time { unit: u, is_adjusted_to_utc } => T::TIME(pf::TimeType { unit: unit(u), is_adjusted_to_u_t_c: *is_adjusted_to_utc }),
        Timestamp { unit: u, is_adjusted_to_utc } => T::TIMESTAMP(pf::TimestampType { unit: unit(u), is_adjusted_to_u_t_c: *is_adjusted_to_utc }),
        Integer(i) => T::INTEGER(pf::IntType { bit_width: int(i).0, is_signed: int(i).1 }),
        Unknown => T::UNKNOWN(Default::default()),
        Json => T::JSON(Default::default()),
        Bson => T::BSON(Default::default()),
        Uuid => T::UUID(Default::default()),
    }
}
fn element(t: &ParquetType, out: &mut Vec<pf::SchemaElement>) {
    match t {
        ParquetType::PrimitiveType(p) => {
            let (n, len) = match p.physical_type {
                PhysicalType::Boolean => (0, None),
                PhysicalType::Int32 => (1, None),
                PhysicalType::Int64 => (2, None),
                PhysicalType::Int96 => (3, None),
                PhysicalType::Float => (4, None),
                PhysicalType::Double => (5, None),
                PhysicalType::ByteArray => (6, None),
                PhysicalType::FixedLenByteArray(n) => (7, Some(n as i32)),
            };
            let c = p.converted_type.as_ref().map(conv_thrift);
            out.push(pf::SchemaElement {
                type_: Some(pf::Type(n)),
                type_length: len,
                repetition_type: Some(rep_thrift(p.field_info.repetition)),
                name: p.field_info.name.clone(),
                num_children: None,
                converted_type: c.map(|c| pf::ConvertedType(c.0)),
                scale: c.and_then(|c| c.1).map(|x| x.1),
                precision: c.and_then(|c| c.1).map(|x| x.0),
                field_id: p.field_info.id,
                logical_type: p.logical_type.as_ref().map(logical_thrift),
            })
        }
        ParquetType::GroupType { field_info, logical_type, converted_type, fields } => {
            out.push(pf::SchemaElement {
                type_: None,
                type_length: None,
                repetition_type: Some(rep_thrift(field_info.repetition)),
                name: field_info.name.clone(),
                num_children: Some(fields.len() as i32),
                converted_type: converted_type.map(|c| {
                    pf::ConvertedType(match c {
                        GroupConvertedType::Map => 1,
                        GroupConvertedType::MapKeyValue => 2,
                        GroupConvertedType::List => 3,
                    })
                }),
                scale: None,
                precision: None,
                field_id: field_info.id,
                logical_type: logical_type.map(|l| match l {
                    GroupLogicalType::Map => pf::LogicalType::MAP(Default::default()),
                    GroupLogicalType::List => pf::LogicalType::LIST(Default::default()),
                }),
            });
            for f in fields {
                element(f, out)
            }
        }
    }
}
pub fn thrift_schema(name: &str, fields: &[ParquetType]) -> Vec<pf::SchemaElement> {
    let mut out = vec![pf::SchemaElement { type_: None, type_length: None, repetition_type: None, name: name.into(), num_children: Some(fields.len() as i32), converted_type: None, scale: None, precision: None, field_id: None, logical_type: None }];
    for f in fields {
        element(f, &mut out)
    }
    out
}
fn file_metadata(schema: Vec<pf::SchemaElement>) -> pf::FileMetaData {
    pf::FileMetaData { version: 2, schema, num_rows: 0, row_groups: vec![], key_value_metadata: None, created_by: None, column_orders: None, encryption_algorithm: None, footer_signing_key_metadata: None }
}

// ---------------------------------------------------------------- the textual form
/// how the text is laid out
#[derive(Clone, Copy, Debug)]
struct Style {
    lower: bool,
    spaced: bool,
    binary: bool,
}
fn text_logical(l: &PrimitiveLogicalType) -> String {
    use PrimitiveLogicalType::*;
    let u = |u: &TimeUnit| match u {
        TimeUnit::Milliseconds => "MILLIS",
        TimeUnit::Microseconds => "MICROS",
        TimeUnit::Nanoseconds => "NANOS",
    };
    match l {
        String => "STRING".into(),
        Enum => "ENUM".into(),
        Decimal(p, 0) => format!("DECIMAL({p})"),
        Decimal(p, s) => format!("DECIMAL({p},{s})"),
        Date => "DATE".into(),
        Time { unit, is_adjusted_to_utc: false } => format!("TIME({})", u(unit)),
        Time { unit, is_adjusted_to_utc } => format!("TIME({},{is_adjusted_to_utc})", u(unit)),
        Timestamp { unit, is_adjusted_to_utc } => format!("TIMESTAMP({},{is_adjusted_to_utc})", u(unit)),
        Integer(i) => format!("INTEGER({},{})", int(i).0, int(i).1),
        Unknown => "UNKNOWN".into(),
        Json => "JSON".into(),
        Bson => "BSON".into(),
        Uuid => "UUID".into(),
    }
}
/// `None` if the annotation has no textual form of its own
fn text_conv(c: &PrimitiveConvertedType) -> Option<&'static str> {
    use PrimitiveConvertedType::*;
    Some(match c {
        Utf8 => "UTF8",
        TimeMillis => "TIME_MILLIS",
        TimeMicros => "TIME_MICROS",
        TimestampMillis => "TIMESTAMP_MILLIS",
        TimestampMicros => "TIMESTAMP_MICROS",
        Uint8 => "UINT_8",
        Uint16 => "UINT_16",
        Uint32 => "UINT_32",
        Uint64 => "UINT_64",
        Int8 => "INT_8",
        Int16 => "INT_16",
        Int32 => "INT_32",
        Int64 => "INT_64",
        Interval => "INTERVAL",
        // written the same way as the logical types of that name
        Enum | Decimal(..) | Date | Json | Bson => return None,
    })
}
fn text(t: &ParquetType, st: Style, out: &mut String) -> Option<()> {
    let kw = |s: &str| if st.lower { s.to_lowercase() } else { s.to_string() };
    let sp = |s: &str| if st.spaced { s.chars().map(|c| if "(){},;=".contains(c) { format!(" {c} \n") } else { c.to_string() }).collect::<String>() } else { s.to_string() };
    let f = t.get_field_info();
    out.push_str(&kw(match f.repetition {
        Repetition::Required => "REQUIRED",
        Repetition::Optional => "OPTIONAL",
        Repetition::Repeated => "REPEATED",
    }));
    out.push(' ');
    let id = f.id.map(|i| sp(&format!("={i}"))).unwrap_or_default();
    match t {
        ParquetType::PrimitiveType(p) => {
            let ty = match p.physical_type {
                PhysicalType::Boolean => "BOOLEAN".into(),
                PhysicalType::Int32 => "INT32".into(),
                PhysicalType::Int64 => "INT64".into(),
                PhysicalType::Int96 => "INT96".into(),
                PhysicalType::Float => "FLOAT".into(),
                PhysicalType::Double => "DOUBLE".into(),
                PhysicalType::ByteArray => if st.binary { "BINARY".to_string() } else { "BYTE_ARRAY".into() },
                PhysicalType::FixedLenByteArray(n) => format!("FIXED_LEN_BYTE_ARRAY({n})"),
            };
            let note = match (&p.converted_type, &p.logical_type) {
                (None, None) => String::new(),
                (Some(c), None) => format!("({})", text_conv(c)?),
                (None, Some(l)) => format!("({})", text_logical(l)),
                _ => return None,
            };
            let sep = if ty.ends_with(')') && !st.spaced { "" } else { " " };
            out.push_str(&format!("{}{sep}{}{}{id}{}", sp(&kw(&ty)), f.name, sp(&kw(&note)), sp(";")));
        }
        ParquetType::GroupType { converted_type, logical_type, fields, .. } => {
            let note = match (converted_type, logical_type) {
                (_, Some(_)) => return None,
                (None, None) => "",
                (Some(GroupConvertedType::Map), _) => "(MAP)",
                (Some(GroupConvertedType::MapKeyValue), _) => "(MAP_KEY_VALUE)",
                (Some(GroupConvertedType::List), _) => "(LIST)",
            };
            out.push_str(&format!("{} {}{}{id}{}", kw("GROUP"), f.name, sp(&kw(note)), sp("{")));
            for f in fields {
                text(f, st, out)?;
            }
            out.push_str(&sp("}"));
        }
    }
    Some(())
}

// ---------------------------------------------------------------- the model of leaves
type Leaf = (Vec<String>, i16, i16, usize, PrimitiveType);
fn leaves(t: &ParquetType, mut path: Vec<String>, mut def: i16, mut rep: i16, top: usize, out: &mut Vec<Leaf>) {
    let f = t.get_field_info();
    path.push(f.name.clone());
    def += (f.repetition != Repetition::Required) as i16;
    rep += (f.repetition == Repetition::Repeated) as i16;
    match t {
        ParquetType::PrimitiveType(p) => out.push((path, def, rep, top, p.clone())),
        ParquetType::GroupType { fields, .. } => {
            for f in fields {
                leaves(f, path.clone(), def, rep, top, out)
            }
        }
    }
}
fn check_descriptor(s: &SchemaDescriptor, name: &str, fields: &[ParquetType], from: &str) -> Res {
    same!(s.name(), name, "schema", "name ({from})");
    same!(s.fields(), fields, "schema", "fields ({from})");
    let mut want = vec![];
    for (i, f) in fields.iter().enumerate() {
        leaves(f, vec![], 0, 0, i, &mut want);
    }
    same!(s.columns().len(), want.len(), "leaves", "columns of {fields:?} ({from})");
    for (c, (path, def, rep, top, p)) in s.columns().iter().zip(&want) {
        same!(&c.path_in_schema, path, "leaves", "path of a column of {fields:?} ({from})");
        same!((c.descriptor.max_def_level, c.descriptor.max_rep_level), (*def, *rep), "levels", "maximum levels of column {path:?} of {fields:?} ({from})");
        same!(&c.descriptor.primitive_type, p, "leaves", "type of column {path:?} ({from})");
        same!(&c.base_type, &fields[*top], "leaves", "base type of column {path:?} ({from})");
    }
    Ok(())
}
/// every way to store `fields` and get them back
fn check_schema(name: &str, fields: &[ParquetType], file: bool, st: Style) -> Res {
    let s = guard("SchemaDescriptor::new", || SchemaDescriptor::new(name.into(), fields.to_vec()))?;
    check_descriptor(&s, name, fields, "new")?;
    let th = thrift_schema(name, fields);
    // from thrift
    let m = guard("FileMetaData::try_from_thrift", || FileMetaData::try_from_thrift(file_metadata(th.clone())))?;
    let m = match m {
        Ok(m) => m,
        Err(e) => return fail("schema", format!("schema {fields:?} cannot be read: {e}")),
    };
    check_descriptor(m.schema(), name, fields, "thrift")?;
    same!(guard("into_thrift", || m.into_thrift())?.schema, th, "schema", "thrift form of {fields:?}");
    if file {
        let plan = Plan { schema: s, ..Plan::new(vec![], vec![]) };
        let w = guard("write", || write_file(&plan))??;
        let m = guard("read_metadata", || read_metadata(&mut Cursor::new(&w.bytes)))?;
        match m {
            Ok(m) => check_descriptor(m.schema(), name, fields, "file")?,
            Err(e) => return fail("schema", format!("a file with schema {fields:?} cannot be read: {e}")),
        }
        same!(w.metadata.unwrap().schema, th, "schema", "thrift form written for {fields:?}");
    }
    // as text
    let mut msg = format!("message {name}{}{{ ", if st.spaced { " \n\t" } else { "" });
    if fields.iter().try_for_each(|f| text(f, st, &mut msg)).is_some() {
        msg.push('}');
        tally("textual form");
        match guard("try_from_message", || SchemaDescriptor::try_from_message(&msg))? {
            Ok(s) => check_descriptor(&s, name, fields, &msg)?,
            Err(e) => return fail("text", format!("{msg:?} is rejected: {e}")),
        }
        match guard("from_message", || from_message(&msg))?? {
            ParquetType::GroupType { field_info, fields: f, .. } => {
                same!((field_info.name.as_str(), &f[..]), (name, fields), "text", "type parsed from {msg:?}")
            }
            t => return fail("text", format!("{msg:?} is parsed as {t:?}")),
        }
        // (as many parses as characters: small texts only)
        if st.spaced && !st.binary && msg.len() <= 2000 {
            check_cut(&msg)?;
        }
    }
    Ok(())
}
/// a text that ends before the last brace is rejected, wherever it ends
fn check_cut(msg: &str) -> Res {
    for (at, _) in msg.char_indices() {
        let cut = &msg[..at];
        tally("texts cut short");
        if let Ok(t) = guard("from_message", || from_message(cut))? {
            return fail("cut", format!("{cut:?} is accepted as {t:?}"));
        }
        ensure!(guard("try_from_message", || SchemaDescriptor::try_from_message(cut))?.is_err(), "cut", "{cut:?} is accepted");
    }
    Ok(())
}
/// whether `sub` is a part of `all`: every leaf of `sub` is in `all`, under the same names
fn contained(all: &ParquetType, sub: &ParquetType) -> bool {
    match (all, sub) {
        (ParquetType::PrimitiveType(a), ParquetType::PrimitiveType(b)) => a.field_info == b.field_info && a.physical_type == b.physical_type,
        (ParquetType::GroupType { fields: a, .. }, ParquetType::GroupType { fields: b, .. }) => b.iter().all(|b| a.iter().any(|a| a.get_field_info().name == b.get_field_info().name && contained(a, b))),
        _ => false,
    }
}
/// every way to keep some of the fields
fn parts(f: &[ParquetType]) -> Vec<ParquetType> {
    let mut out = vec![];
    for t in f {
        if flag() {
            out.push(match t {
                ParquetType::GroupType { field_info, fields, .. } => ParquetType::from_group(field_info.name.clone(), field_info.repetition, None, None, parts(fields), field_info.id),
                t => t.clone(),
            });
        }
    }
    if out.len() > 1 && flag() {
        out.reverse();
    }
    out
}
fn nodes(f: &[ParquetType]) -> usize {
    f.iter().map(|t| 1 + if let ParquetType::GroupType { fields, .. } = t { nodes(fields) } else { 0 }).sum()
}
/// changes one thing of the `n`th node
fn alter(f: &mut [ParquetType], n: &mut usize, how: usize) {
    for t in f {
        if *n == 0 {
            *n = usize::MAX;
            let info = t.get_field_info().clone();
            let info = match how {
                0 => FieldInfo { name: format!("{}x", info.name), ..info },
                1 => FieldInfo { name: info.name.to_uppercase(), ..info },
                2 => FieldInfo { repetition: REPS[(REPS.iter().position(|r| *r == info.repetition).unwrap() + 1) % 3], ..info },
                3 => FieldInfo { id: Some(info.id.map_or(0, |i| i + 1)), ..info },
                _ => info,
            };
            *t = match (t.clone(), how) {
                (ParquetType::PrimitiveType(p), 4) => ParquetType::PrimitiveType(PrimitiveType { physical_type: if p.physical_type == PhysicalType::Int64 { PhysicalType::Double } else { PhysicalType::Int64 }, ..p }),
                (ParquetType::PrimitiveType(p), 5) => ParquetType::PrimitiveType(PrimitiveType { physical_type: if p.physical_type == PhysicalType::FixedLenByteArray(3) { PhysicalType::FixedLenByteArray(4) } else { PhysicalType::FixedLenByteArray(3) }, ..p }),
                (ParquetType::PrimitiveType(p), 6) => group(&p.field_info.name, p.field_info.repetition, vec![]),
                (ParquetType::PrimitiveType(p), _) => ParquetType::PrimitiveType(PrimitiveType { field_info: info, ..p }),
                (ParquetType::GroupType { field_info, .. }, 6) => prim(&field_info.name, PhysicalType::Int32, field_info.repetition),
                (ParquetType::GroupType { fields, .. }, 4 | 5) => {
                    let mut fields = fields;
                    fields.push(prim("new", PhysicalType::Int32, Repetition::Required));
                    ParquetType::from_group(info.name, info.repetition, None, None, fields, info.id)
                }
                (ParquetType::GroupType { fields, .. }, _) => ParquetType::from_group(info.name, info.repetition, None, None, fields, info.id),
            };
            return;
        }
        *n -= 1;
        if let ParquetType::GroupType { fields, .. } = t {
            alter(fields, n, how);
            if *n == usize::MAX {
                return;
            }
        }
    }
}
const PLAIN: Style = Style { lower: false, spaced: false, binary: false };
fn any_style() -> Style {
    Style { lower: flag(), spaced: flag(), binary: flag() }
}
/// every forest of exactly `n` nodes
fn forest(mut n: usize, k: &mut usize, types: &[PhysicalType], same_names: bool) -> Vec<ParquetType> {
    let mut out = vec![];
    while n > 0 {
        // size of the first tree
        let size = 1 + choose(n);
        n -= size;
        *k += 1;
        let me = *k;
        let name = if same_names { "x".to_string() } else { format!("f{me}") };
        let rep = pick(&REPS);
        let id = if me % 2 == 1 { Some(me as i32 - 3) } else { None };
        if size == 1 && !flag() {
            out.push(ParquetType::try_from_primitive(name, types[me % types.len()], rep, None, None, id).unwrap());
        } else {
            let conv = [None, Some(GroupConvertedType::List), None, Some(GroupConvertedType::Map)][me % 4];
            let fields = forest(size - 1, k, types, same_names);
            out.push(ParquetType::from_converted(name, fields, rep, conv, id));
        }
    }
    out
}
/// the largest p such that 10^p - 1 fits in n bytes, signed
fn digits(n: usize) -> usize {
    // 10^p <= 2^(8n - 1), in base 2^32
    let bits = 8 * n - 1;
    if n > 1000 {
        // no precision here is near enough to the largest one for the rounding to matter
        return (bits as f64 * std::f64::consts::LOG10_2) as usize;
    }
    let mut ten = vec![1u32];
    let mut p = 0;
    loop {
        let mut carry = 0u64;
        for x in ten.iter_mut() {
            let v = *x as u64 * 10 + carry;
            *x = v as u32;
            carry = v >> 32;
        }
        if carry > 0 {
            ten.push(carry as u32);
        }
        let len = (ten.len() - 1) * 32 + (32 - ten.last().unwrap().leading_zeros() as usize);
        // no power of ten other than 1 is a power of two
        if len > bits {
            return p;
        }
        p += 1;
    }
}
fn decimal_ok(t: PhysicalType, p: usize, s: usize) -> bool {
    p >= 1
        && s <= p
        && match t {
            PhysicalType::Int32 => p <= 9,
            PhysicalType::Int64 => p <= 18,
            PhysicalType::ByteArray => true,
            PhysicalType::FixedLenByteArray(n) => n > 0 && p <= digits(n),
            _ => false,
        }
}
fn conv_ok(t: PhysicalType, c: &PrimitiveConvertedType) -> bool {
    use PrimitiveConvertedType::*;
    match c {
        Utf8 | Enum | Json | Bson => t == PhysicalType::ByteArray,
        Decimal(p, s) => decimal_ok(t, *p, *s),
        Date | TimeMillis | Uint8 | Uint16 | Uint32 | Int8 | Int16 | Int32 => t == PhysicalType::Int32,
        TimeMicros | TimestampMillis | TimestampMicros | Uint64 | Int64 => t == PhysicalType::Int64,
        Interval => t == PhysicalType::FixedLenByteArray(12),
    }
}
/// `None`: left open
fn logical_ok(t: PhysicalType, l: &PrimitiveLogicalType) -> Option<bool> {
    use IntegerType as I;
    use PrimitiveLogicalType::*;
    Some(match l {
        String | Enum | Json | Bson => t == PhysicalType::ByteArray,
        Decimal(p, s) => decimal_ok(t, *p, *s),
        Date => t == PhysicalType::Int32,
        Time { unit: TimeUnit::Milliseconds, .. } => t == PhysicalType::Int32,
        Time { .. } | Timestamp { .. } => t == PhysicalType::Int64,
        Integer(I::Int64 | I::UInt64) => t == PhysicalType::Int64,
        Integer(_) => t == PhysicalType::Int32,
        Unknown if t == PhysicalType::Int32 => true,
        Unknown => return None,
        Uuid => t == PhysicalType::FixedLenByteArray(16),
    })
}
const DECIMALS: [(usize, usize); 25] = [(0, 0), (1, 0), (1, 1), (2, 3), (4, 2), (4, 4), (5, 0), (9, 2), (10, 2), (18, 3), (19, 3), (28, 0), (29, 0), (38, 38), (39, 0), (2, 1), (306, 256), (307, 300), (308, 0), (309, 0), (310, 310), (481, 0), (482, 0), (70000, 69999), (2147483647, 2147483647)];
fn all_conv() -> Vec<PrimitiveConvertedType> {
    use PrimitiveConvertedType::*;
    let mut v = vec![Utf8, Enum, Date, TimeMillis, TimeMicros, TimestampMillis, TimestampMicros, Uint8, Uint16, Uint32, Uint64, Int8, Int16, Int32, Int64, Json, Bson, Interval];
    v.extend(DECIMALS.iter().map(|(p, s)| Decimal(*p, *s)));
    v
}
fn all_logical() -> Vec<PrimitiveLogicalType> {
    use IntegerType::*;
    use PrimitiveLogicalType as L;
    let mut v = vec![L::String, L::Enum, L::Date, L::Unknown, L::Json, L::Bson, L::Uuid];
    for i in [Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64] {
        v.push(L::Integer(i));
    }
    for unit in [TimeUnit::Milliseconds, TimeUnit::Microseconds, TimeUnit::Nanoseconds] {
        for is_adjusted_to_utc in [false, true] {
            v.push(L::Time { unit, is_adjusted_to_utc });
            v.push(L::Timestamp { unit, is_adjusted_to_utc });
        }
    }
    v.extend(DECIMALS.iter().map(|(p, s)| L::Decimal(*p, *s)));
    v
}
fn leaf_types() -> Vec<PhysicalType> {
    let mut v = all_types();
    v.extend([1, 2, 4, 8, 12, 16, 17, 127, 128, 129, 200, 40000, i32::MAX as usize].map(PhysicalType::FixedLenByteArray));
    v
}
fn opt<T: Clone>(v: &[T]) -> Option<T> {
    match choose(v.len() + 1) {
        0 => None,
        i => Some(v[i - 1].clone()),
    }
}
pub fn schemas(thorough: bool) -> Def {
    let t = thorough;
    let mut spaces = vec![
        space("trees", move || {
            let same_names = flag();
            let n = choose(if t { 7 } else { 6 } + 1);
            let types = all_types();
            let mut k = 0;
            let fields = forest(n, &mut k, &types, same_names);
            visit(&format!("{fields:?}"));
            sample(|| format!("{fields:?}"));
            check_schema("root", &fields, n <= 4, PLAIN)
        }),
        // every annotation a column may have
        space("annotations", || {
            let p = pick(&leaf_types());
            let c = opt(&all_conv());
            let l = opt(&all_logical());
            let rep = pick(&REPS[..if c.is_some() && l.is_some() { 1 } else { 3 }]);
            let id = pick(&[None, Some(0), Some(-1), Some(i32::MAX)][..if c.is_some() && l.is_some() { 1 } else { 4 }]);
            let ty = guard("try_from_primitive", || ParquetType::try_from_primitive("a".into(), p, rep, c, l, id))?;
            visit(&(p, c, l));
            let want = match (c.map(|c| conv_ok(p, &c)).unwrap_or(true), l.map(|l| logical_ok(p, &l)).unwrap_or(Some(true))) {
                (false, _) | (_, Some(false)) => false,
                (true, Some(true)) => true,
                _ => return Ok(()),
            };
            same!(ty.is_ok(), want, "annotation", "{c:?} and {l:?} on {p:?}");
            let Ok(ty) = ty else {
                // such a column is not read either
                let forged = ParquetType::PrimitiveType(PrimitiveType { field_info: FieldInfo { name: "a".into(), repetition: rep, id }, logical_type: l, converted_type: c, physical_type: p });
                let r = guard("try_from_thrift", || FileMetaData::try_from_thrift(file_metadata(thrift_schema("s", &[forged.clone()]))))?;
                ensure!(r.is_err(), "annotation", "{forged:?} was accepted");
                return Ok(());
            };
            tally("valid annotation");
            let style = any_style();
            check_schema("s", &[ty.clone(), ParquetType::from_converted("g".into(), vec![ty], rep, None, id)], true, style)
        }),
        space("groups", || {
            let conv = pick(&[None, Some(GroupConvertedType::List), Some(GroupConvertedType::Map), Some(GroupConvertedType::MapKeyValue)]);
            let logical = pick(&[None, Some(GroupLogicalType::List), Some(GroupLogicalType::Map)]);
            let rep = pick(&REPS);
            let id = pick(&[None, Some(0), Some(-7), Some(i32::MIN)]);
            let leaf = prim("item", pick(&all_types()), pick(&REPS));
            let g = ParquetType::from_group("g".into(), rep, conv, logical, match choose(3) {
                0 => vec![],
                1 => vec![leaf],
                _ => vec![leaf.clone(), prim("other", PhysicalType::Int64, Repetition::Optional), leaf],
            }, id);
            let outer = match choose(3) {
                0 => vec![g],
                1 => vec![ParquetType::from_group("o".into(), Repetition::Repeated, None, logical, vec![g.clone(), g], None)],
                _ => vec![prim("p", PhysicalType::Int32, Repetition::Optional), g],
            };
            visit(&format!("{outer:?}"));
            check_schema(&pick(&["schema", "a.b", "é"]), &outer, true, any_style())
        }),
        // names, and deep nesting
        space("names", || {
            let names = ["a", "A", "list", "group", "message", "required", "INT32", "ünï", "a.b", "-1", "x\u{1F600}", "a:b", "0", "\"q\""];
            let (a, b) = (pick(&names), pick(&names));
            let f = vec![group(a, Repetition::Repeated, vec![prim(b, PhysicalType::Int64, Repetition::Optional), prim(a, PhysicalType::ByteArray, Repetition::Required)]), prim(b, PhysicalType::FixedLenByteArray(5), Repetition::Repeated)];
            check_schema(a, &f, true, any_style())
        }),
        // parts of a schema, as they are and with one thing changed
        space("parts", move || {
            let n = choose(if t { 4 } else { 3 } + 1);
            let mut k = 0;
            let fields = forest(n, &mut k, &[PhysicalType::Int64, PhysicalType::FixedLenByteArray(3)], false);
            let mut sub = parts(&fields);
            let m = nodes(&sub);
            let root = |f: &[ParquetType]| ParquetType::from_group("r".into(), Repetition::Optional, None, None, f.to_vec(), None);
            let changed = m > 0 && flag();
            if changed {
                let how = choose(7);
                alter(&mut sub, &mut choose(m), how);
                tally("altered parts");
            }
            visit(&format!("{fields:?} {sub:?}"));
            let (a, b) = (root(&fields), root(&sub));
            let want = contained(&a, &b);
            // how a group repeats, and its id, are not compared
            let got = guard("check_contains", || a.check_contains(&b))?;
            same!(got, want, "contains", "whether {fields:?} contains {sub:?}");
            ensure!(changed || want, "model", "a part is contained");
            // and of two columns
            for x in &fields {
                for y in &sub {
                    let (leaf, other) = (matches!(x, ParquetType::PrimitiveType(_)), matches!(y, ParquetType::PrimitiveType(_)));
                    if leaf || other {
                        same!(guard("check_contains", || x.check_contains(y))?, contained(x, y), "contains", "whether {x:?} contains {y:?}");
                    }
                }
            }
            Ok(())
        }),
        // ids of textual schemas
        space("ids", || {
            let ids = ["0", "1", "-1", "2147483647", "-2147483648", "2147483648", "-2147483649", "4294967296", "99999999999999999999", "x", "1x", "1.0", "", ";", "{", "0x1", "--1", "="];
            let id = pick(&ids);
            let msg = if flag() { format!("message m {{ OPTIONAL INT32 a = {id}; }}") } else { format!("message m {{ OPTIONAL group g = {id} {{ REQUIRED INT32 a; }} }}") };
            visit(&msg);
            let want = id.parse::<i32>().ok();
            match (guard("from_message", || from_message(&msg))?, want) {
                (Err(_), None) => Ok(()),
                (Ok(ParquetType::GroupType { fields, .. }), Some(id)) => {
                    same!(fields.len(), 1, "ids", "fields of {msg:?}");
                    same!(fields[0].get_field_info().id, Some(id), "ids", "id in {msg:?}");
                    Ok(())
                }
                (r, _) => fail("ids", format!("{msg:?} is parsed as {r:?}")),
            }
        }),
        // words of a textual schema, misspelled
        space("words", || {
            let words: &[&[&str]] = &[
                &["message", " m ", "{", "REQUIRED", " ", "INT32", " a (", "INTEGER", "(", "8", ",", "true", ")) = ", "1", ";", "}"],
                &["message", " m {", "OPTIONAL", " ", "group", " g ", "(", "LIST", ")", " {", "REPEATED", " ", "INT64", " t ", "(", "TIMESTAMP", "(", "MICROS", ",", "false", "))", ";", "}", "}"],
                &["message", " m {", "REPEATED", " ", "FIXED_LEN_BYTE_ARRAY", " (", "5", ") d (", "DECIMAL", "(", "7", ",", "2", "))", ";", "}"],
                &["message", " m {", "OPTIONAL", " ", "BYTE_ARRAY", " s (", "STRING", ")", ";", "REQUIRED", " ", "INT64", " n (", "TIME", "(", "NANOS", ",", "true", "))", ";", "REQUIRED", " ", "INT32", " d (", "DATE", ")", ";", "}"],
                &["message", " m {", "OPTIONAL", " ", "BOOLEAN", " s;", "REQUIRED", " ", "FLOAT", " n", ";", "REQUIRED", " ", "DOUBLE", " d = -", "7", ";", "REQUIRED", " ", "INT96", " i", ";", "}"],
                &["message", " m {", "OPTIONAL", " ", "group", " g (", "MAP", ") {", "OPTIONAL", " ", "BYTE_ARRAY", " a (", "UTF8", ");", "OPTIONAL", " ", "INT64", " b (", "TIMESTAMP_MILLIS", ");", "}", "}"],
            ];
            let line = pick(words);
            let text = line.concat();
            let right = guard("from_message", || from_message(&text))?;
            ensure!(right.is_ok(), "words", "{text:?} is not parsed: {right:?}");
            let spoken: Vec<usize> = (0..line.len()).filter(|i| line[*i].chars().all(|c| c.is_alphanumeric() || c == '_')).collect();
            let at = pick(&spoken);
            let w = line[at];
            let wrong = match choose(8) {
                0 => format!("{w}X"),
                1 => format!("X{w}"),
                2 => w[..w.len() - 1].to_string(),
                3 => w[1..].to_string(),
                4 => format!("{w}{w}"),
                5 => String::new(),
                6 => format!("{} {}", &w[..w.len() / 2], &w[w.len() / 2..]),
                _ => "maybe".to_string(),
            };
            let mut other: Vec<&str> = line.to_vec();
            other[at] = &wrong;
            let number = w.parse::<i32>().is_ok() && wrong.trim().parse::<i32>().is_ok();
            let text = other.concat();
            visit(&text);
            if number {
                return Ok(tally("another number"));
            }
            let r = guard("from_message", || from_message(&text))?;
            ensure!(r.is_err(), "words", "{text:?} is parsed as {r:?}");
            Ok(tally("refused"))
        }),
        // names that have no textual form
        space("odd names", || {
            let names = ["", " ", "a b", "a;b", "{", "a\n", "\u{0}", "(=)"];
            let (a, b) = (pick(&names), pick(&names));
            let f = vec![group(a, Repetition::Optional, vec![prim(b, PhysicalType::Int64, Repetition::Optional)])];
            let s = SchemaDescriptor::new(b.into(), f.clone());
            check_descriptor(&s, b, &f, "new")?;
            let w = write_file(&Plan { schema: s, ..Plan::new(vec![], vec![]) })?;
            let m = guard("read_metadata", || read_metadata(&mut Cursor::new(&w.bytes)))??;
            check_descriptor(m.schema(), b, &f, "file")
        }),
        space("chains", || {
            // every repetition along a chain of groups
            let depth = 1 + choose(7);
            let mut ty = prim("leaf", PhysicalType::Double, pick(&REPS));
            for i in 0..depth {
                ty = group(&format!("g{i}"), pick(&REPS), vec![ty]);
            }
            check_schema("s", &[ty], false, PLAIN)
        }),
        space("wide and deep", || {
            let n = pick(&[10usize, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 255, 256, 257, 1000]);
            let deep = n <= 100 && flag();
            // the columns side by side at the root or in a group of a group
            let inner = !deep && flag();
            let fields = if deep {
                let mut ty = prim("leaf", PhysicalType::Double, Repetition::Optional);
                for i in 0..n {
                    ty = group(&format!("g{i}"), REPS[i % 3], vec![ty]);
                }
                vec![ty]
            } else {
                (0..n).map(|i| if i % 5 == 3 { group(&format!("g{i}"), REPS[i % 3], vec![prim("l", all_types()[i % 8], REPS[i % 2])]) } else { prim(&format!("c{i}"), all_types()[i % 8], REPS[i % 3]) }).collect()
            };
            let fields = if inner { vec![prim("before", PhysicalType::Int32, REPS[0]), group("outer", REPS[1], vec![group("inner", REPS[2], fields)]), prim("after", PhysicalType::Int64, REPS[1])] } else { fields };
            check_schema("s", &fields, true, any_style())
        }),
        space("very wide", || {
            let n = pick(&[32767usize, 32768, 65535, 65536]);
            let fields: Vec<_> = (0..n).map(|i| prim(&format!("c{i}"), all_types()[i % 8], REPS[i % 3])).collect();
            // (at the root only: every column keeps a copy of the field it is in)
            check_schema("s", &fields, true, PLAIN)
        }),
        // forms other writers give to the same schema
        space("other writers", || {
            let same_names = flag();
            let n = 1 + choose(3);
            let mut k = 0;
            let fields = forest(n, &mut k, &all_types(), same_names);
            let mut th = thrift_schema("root", &fields);
            let root = pick(&[None, Some(0), Some(1), Some(2)]);
            th[0].repetition_type = root.map(pf::FieldRepetitionType);
            let zero = flag();
            for e in th.iter_mut().skip(1) {
                if zero && e.type_.is_some() {
                    e.num_children = Some(0);
                }
            }
            let m = guard("try_from_thrift", || FileMetaData::try_from_thrift(file_metadata(th.clone())))?;
            match m {
                Ok(m) => check_descriptor(m.schema(), "root", &fields, "another writer's thrift"),
                Err(e) => fail("schema", format!("{th:?} cannot be read: {e}")),
            }
        }),
        // element lists that are not a tree
        space("broken trees", || {
            let n = 1 + choose(4);
            let mut th = vec![];
            for i in 0..n {
                let children = pick(&[None, Some(0), Some(1), Some(2), Some(-1)]);
                let leaf = flag();
                th.push(pf::SchemaElement { type_: leaf.then_some(pf::Type(1)), type_length: None, repetition_type: (i > 0).then_some(pf::FieldRepetitionType(0)), name: format!("e{i}"), num_children: children, converted_type: None, scale: None, precision: None, field_id: None, logical_type: None });
            }
            let m = guard("try_from_thrift", || FileMetaData::try_from_thrift(file_metadata(th.clone())))?;
            // sizes of well-formed trees: how many elements the root takes
            fn take(th: &[pf::SchemaElement], i: usize) -> Option<usize> {
                let e = th.get(i)?;
                let mut next = i + 1;
                for _ in 0..e.num_children.unwrap_or(0).max(0) {
                    next = take(th, next)?;
                }
                Some(next)
            }
            let valid = take(&th, 0) == Some(th.len());
            if m.is_ok() {
                tally("accepted");
                ensure!(valid, "tree", "{th:?} is not a tree, but was accepted");
            }
            Ok(())
        }),
        space("serde", || {
            let n = choose(4);
            let mut k = 0;
            let mut fields = forest(n, &mut k, &all_types(), false);
            if n == 0 {
                let p = pick(&leaf_types());
                let (c, l) = (opt(&all_conv()), opt(&all_logical()));
                match ParquetType::try_from_primitive("a".into(), p, Repetition::Optional, c, l, Some(3)) {
                    Ok(t) => fields.push(t),
                    Err(_) => return Ok(()),
                }
            }
            let s = SchemaDescriptor::new("r".into(), fields.clone());
            let j = serde_json::to_string(&s)?;
            let again: SchemaDescriptor = serde_json::from_str(&j)?;
            check_descriptor(&again, "r", &fields, "serde")
        }),
    ];
    spaces.rotate_left(1);
    Def {
        spaces,
        rule: "Every forest of up to 6-7 nodes (groups and leaves, each required, optional or repeated), every physical x converted x logical annotation, names, ids, wide and deep trees: leaves, paths and levels are compared with a recursive definition; the thrift elements with an independent conversion; and the schema is recovered from thrift, from a file and from a printed text in every style.",
        assumptions: vec!["names with blanks or delimiters have no textual form", "annotations that are written like a logical type of the same name are parsed as logical types", "UNKNOWN is only decided on INT32"],
    }
}
