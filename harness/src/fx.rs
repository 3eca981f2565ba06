//! Shared fixtures: schemas, pages, whole files, and adversarial sources and sinks.
use crate::engine::*;
use futures::io::{AsyncRead, AsyncSeek, AsyncWrite};
use futures::StreamExt;
use parquet2::compression::CompressionOptions;
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::{Descriptor, FileMetaData, KeyValue, SchemaDescriptor, ThriftFileMetaData};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::statistics::ParquetStatistics;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use std::future::Future;
use std::io::{Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

// ---------------------------------------------------------------- schema
pub fn prim(name: &str, t: PhysicalType, rep: Repetition) -> ParquetType {
    ParquetType::try_from_primitive(name.into(), t, rep, None, None, None).unwrap()
}
pub fn group(name: &str, rep: Repetition, fields: Vec<ParquetType>) -> ParquetType {
    ParquetType::from_converted(name.into(), fields, rep, None, None)
}
pub fn schema(fields: Vec<ParquetType>) -> SchemaDescriptor {
    SchemaDescriptor::new("root".into(), fields)
}
pub fn descriptor(t: PhysicalType, optional: bool) -> Descriptor {
    let s = schema(vec![prim("c", t, if optional { Repetition::Optional } else { Repetition::Required })]);
    s.columns()[0].descriptor.clone()
}

// ---------------------------------------------------------------- opaque pages
/// What a page is made of. Data pages carry arbitrary bytes unless built by the typed helpers.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Pg {
    Dict { n: usize, sorted: bool, body: Vec<u8> },
    V1 { n: usize, rows: usize, enc: i32, stats: Option<St>, body: Vec<u8> },
    V2 { n: usize, nulls: usize, rows: usize, rep: usize, def: usize, flag: Option<bool>, enc: i32, stats: Option<St>, body: Vec<u8> },
}
/// (null_count, distinct_count, min, max)
pub type St = (Option<i64>, Option<i64>, Option<Vec<u8>>, Option<Vec<u8>>);
pub fn thrift_stats(s: &St) -> ParquetStatistics {
    ParquetStatistics { max: None, min: None, null_count: s.0, distinct_count: s.1, max_value: s.3.clone(), min_value: s.2.clone() }
}
impl Pg {
    pub fn body(&self) -> &[u8] {
        match self {
            Pg::Dict { body, .. } | Pg::V1 { body, .. } | Pg::V2 { body, .. } => body,
        }
    }
    pub fn rows(&self) -> usize {
        match self {
            Pg::Dict { .. } => 0,
            Pg::V1 { rows, .. } | Pg::V2 { rows, .. } => *rows,
        }
    }
    pub fn values(&self) -> usize {
        match self {
            Pg::Dict { .. } => 0,
            Pg::V1 { n, .. } | Pg::V2 { n, .. } => *n,
        }
    }
    pub fn is_dict(&self) -> bool {
        matches!(self, Pg::Dict { .. })
    }
    pub fn header(&self) -> Option<DataPageHeader> {
        match self {
            Pg::Dict { .. } => None,
            Pg::V1 { n, enc, stats, .. } => Some(DataPageHeader::V1(DataPageHeaderV1 {
                num_values: *n as i32,
                encoding: parquet_format_safe::Encoding(*enc),
                definition_level_encoding: Encoding::Rle.into(),
                repetition_level_encoding: Encoding::Rle.into(),
                statistics: stats.as_ref().map(thrift_stats),
            })),
            Pg::V2 { n, nulls, rows, rep, def, flag, enc, stats, .. } => Some(DataPageHeader::V2(DataPageHeaderV2 {
                num_values: *n as i32,
                num_nulls: *nulls as i32,
                num_rows: *rows as i32,
                encoding: parquet_format_safe::Encoding(*enc),
                definition_levels_byte_length: *def as i32,
                repetition_levels_byte_length: *rep as i32,
                is_compressed: *flag,
                statistics: stats.as_ref().map(thrift_stats),
            })),
        }
    }
    pub fn page(&self, d: &Descriptor) -> Page {
        match self {
            Pg::Dict { n, sorted, body } => Page::Dict(DictPage::new(body.clone(), *n, *sorted)),
            _ => Page::Data(DataPage::new(self.header().unwrap(), self.body().to_vec(), d.clone(), Some(self.rows()))),
        }
    }
    pub fn seen(&self) -> Seen {
        match self {
            Pg::Dict { n, sorted, body } => Seen::Dict(*n, *sorted, body.clone()),
            _ => Seen::of_header(self.header().as_ref().unwrap(), self.body()),
        }
    }
}
/// A page as returned by a reader, in comparable form.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Seen {
    Dict(usize, bool, Vec<u8>),
    V1(DataPageHeaderV1, Vec<u8>),
    V2(DataPageHeaderV2, Vec<u8>),
}
impl Seen {
    pub fn of_header(h: &DataPageHeader, body: &[u8]) -> Self {
        match h {
            DataPageHeader::V1(h) => Seen::V1(h.clone(), body.to_vec()),
            DataPageHeader::V2(h) => Seen::V2(h.clone(), body.to_vec()),
        }
    }
    pub fn of(p: &Page) -> Self {
        match p {
            Page::Dict(d) => Seen::Dict(d.num_values, d.is_sorted, d.buffer.clone()),
            Page::Data(p) => Seen::of_header(p.header(), p.buffer()),
        }
    }
}
/// Pages after the last value of a column carry nothing: readers are free not to return them.
pub fn trim(mut v: Vec<Seen>) -> Vec<Seen> {
    let values = |p: &Seen| match p {
        Seen::Dict(..) => 0,
        Seen::V1(h, _) => h.num_values,
        Seen::V2(h, _) => h.num_values,
    };
    while v.last().map(|p| values(p) == 0).unwrap_or(false) {
        v.pop();
    }
    v
}
pub fn bytes(n: usize, salt: usize) -> Vec<u8> {
    // half repetitive, half not, so that codecs both shrink and grow it
    (0..n).map(|i| if i % 7 < 3 { salt as u8 } else { (i.wrapping_mul(37) ^ salt.wrapping_mul(101) ^ (i >> 5)) as u8 }).collect()
}

// ---------------------------------------------------------------- whole files
pub type Column = Vec<Pg>;
pub type Group = Vec<Column>;
#[derive(Clone, Debug)]
pub struct Plan {
    pub schema: SchemaDescriptor,
    pub codec: CompressionOptions,
    pub stats: bool,
    pub v1: bool,
    pub created_by: Option<String>,
    pub kv: Option<Vec<KeyValue>>,
    pub groups: Vec<Group>,
}
impl Plan {
    pub fn options(&self) -> WriteOptions {
        WriteOptions { write_statistics: self.stats, version: if self.v1 { Version::V1 } else { Version::V2 } }
    }
    pub fn new(fields: Vec<ParquetType>, groups: Vec<Group>) -> Self {
        Plan { schema: schema(fields), codec: CompressionOptions::Uncompressed, stats: false, v1: false, created_by: None, kv: None, groups }
    }
}
pub type Pages<'a> = DynStreamingIterator<'a, CompressedPage, Error>;
pub fn column_iter(col: &[Pg], d: &Descriptor, codec: CompressionOptions) -> Pages<'static> {
    let pages: Vec<Result<Page, Error>> = col.iter().map(|p| Ok(p.page(d))).collect();
    DynStreamingIterator::new(Compressor::new(pages.into_iter(), codec, vec![]))
}
pub fn group_iter(plan: &Plan, g: &Group) -> RowGroupIter<'static, Error> {
    let cols: Vec<Result<Pages<'static>, Error>> = g
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let d = &plan.schema.columns()[i.min(plan.schema.columns().len() - 1)].descriptor;
            Ok(column_iter(c, d, plan.codec))
        })
        .collect();
    DynIter::new(cols.into_iter())
}
pub struct Written {
    pub bytes: Vec<u8>,
    pub size: u64,
    pub metadata: Option<ThriftFileMetaData>,
}
pub fn write_to<W: Write>(plan: &Plan, w: W) -> Result<(W, u64, ThriftFileMetaData), Error> {
    let mut f = FileWriter::new(w, plan.schema.clone(), plan.options(), plan.created_by.clone());
    for g in &plan.groups {
        f.write(group_iter(plan, g))?;
    }
    let size = f.end(plan.kv.clone())?;
    let (w, m) = f.into_inner_and_metadata();
    Ok((w, size, m))
}
pub fn write_file(plan: &Plan) -> Result<Written, Error> {
    let (bytes, size, m) = write_to(plan, vec![])?;
    Ok(Written { bytes, size, metadata: Some(m) })
}
pub async fn write_to_async<W: AsyncWrite + Unpin + Send>(plan: &Plan, w: W) -> Result<(W, u64), Error> {
    let mut f = FileStreamer::new(w, plan.schema.clone(), plan.options(), plan.created_by.clone());
    for g in &plan.groups {
        f.write(group_iter(plan, g)).await?;
    }
    let size = f.end(plan.kv.clone()).await?;
    Ok((f.into_inner(), size))
}
pub fn read_pages<R: Read + Seek>(reader: R, m: &FileMetaData, g: usize, c: usize) -> Result<Vec<Seen>, Error> {
    let it = get_page_iterator(&m.row_groups[g].columns()[c], reader, None, vec![], usize::MAX)?;
    let mut d = Decompressor::new(it, vec![]);
    let mut out = vec![];
    while let Some(p) = d.next()? {
        out.push(Seen::of(p));
    }
    Ok(out)
}
pub async fn read_pages_async<R: AsyncRead + AsyncSeek + Unpin + Send>(r: &mut R, m: &FileMetaData, g: usize, c: usize) -> Result<Vec<Seen>, Error> {
    let col = &m.row_groups[g].columns()[c];
    let s = get_page_stream(col, r, vec![], Arc::new(|_, _| true), usize::MAX).await?;
    futures::pin_mut!(s);
    let mut out = vec![];
    while let Some(p) = s.next().await {
        let p = decompress(p?, &mut vec![])?;
        out.push(Seen::of(&p));
    }
    Ok(out)
}
/// Everything a file says, page by page.
pub fn read_file<R: Read + Seek>(r: &mut R) -> Result<(FileMetaData, Vec<Vec<Vec<Seen>>>), Error> {
    let m = read_metadata(r)?;
    let mut out = vec![];
    for g in 0..m.row_groups.len() {
        let mut cols = vec![];
        for c in 0..m.row_groups[g].columns().len() {
            cols.push(read_pages(&mut *r, &m, g, c)?);
        }
        out.push(cols);
    }
    Ok((m, out))
}
pub fn expected(plan: &Plan) -> Vec<Vec<Vec<Seen>>> {
    plan.groups.iter().map(|g| g.iter().map(|c| c.iter().map(|p| p.seen()).collect()).collect()).collect()
}
/// the thrift form of read metadata (comparable)
pub fn thrift(m: &FileMetaData) -> ThriftFileMetaData {
    m.clone().into_thrift()
}
pub fn codecs() -> Vec<CompressionOptions> {
    let mut v = vec![
        CompressionOptions::Uncompressed,
        CompressionOptions::Snappy,
        CompressionOptions::Gzip(None),
        CompressionOptions::Brotli(None),
        CompressionOptions::Lz4Raw,
        CompressionOptions::Zstd(None),
    ];
    // cheapest first
    v.rotate_left(0);
    v
}
pub fn kv(k: &str, v: Option<&str>) -> KeyValue {
    KeyValue { key: k.into(), value: v.map(|x| x.into()) }
}

// ---------------------------------------------------------------- adversarial I/O
/// Which misbehaviours the environment may choose, at every I/O call (each costs one deviation).
#[derive(Clone, Copy, Default, Debug)]
pub struct Env {
    pub short: bool,
    pub interrupt: bool,
    pub pending: bool,
    pub error: bool,
    pub eof: bool,
    /// the sink accepts no more bytes (writes return 0)
    pub zero: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Normal,
    One,
    Half,
    Interrupt,
    Pending,
    Error,
    Eof,
    Zero,
}
impl Env {
    fn act(&self, len: usize, seek: bool) -> Act {
        let mut opts = vec![Act::Normal];
        if self.short && !seek && len > 1 {
            opts.push(Act::One);
            if len > 3 {
                opts.push(Act::Half);
            }
        }
        if self.interrupt && !seek {
            opts.push(Act::Interrupt);
        }
        if self.pending {
            opts.push(Act::Pending);
        }
        if self.error {
            opts.push(Act::Error);
        }
        if self.eof && !seek {
            opts.push(Act::Eof);
        }
        if self.zero && !seek && len > 0 {
            opts.push(Act::Zero);
        }
        opts[deviate(opts.len())]
    }
}
#[derive(Default, Debug)]
pub struct Trace {
    pub faulted: AtomicBool,
    pub flush_faulted: AtomicBool,
    pub ops: AtomicUsize,
    pub pendings: AtomicUsize,
    pub partial: AtomicUsize,
}
impl Trace {
    pub fn fault(&self) -> bool {
        self.faulted.load(Ordering::SeqCst)
    }
}
/// A source over fixed bytes whose every call may misbehave.
pub struct Source {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    pub env: Env,
    pub t: Arc<Trace>,
    pub cut: bool,
    pub was_pending: bool,
}
impl Source {
    pub fn new(data: &Arc<Vec<u8>>, env: Env) -> Self {
        Source { data: data.clone(), pos: 0, env, t: Arc::default(), cut: false, was_pending: false }
    }
    fn copy(&mut self, buf: &mut [u8], max: usize) -> usize {
        let start = (self.pos as usize).min(self.data.len());
        let n = buf.len().min(max).min(self.data.len() - start);
        buf[..n].copy_from_slice(&self.data[start..start + n]);
        self.pos += n as u64;
        n
    }
    fn do_read(&mut self, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        self.t.ops.fetch_add(1, Ordering::SeqCst);
        if self.cut {
            return Poll::Ready(Ok(0));
        }
        let avail = self.data.len().saturating_sub(self.pos as usize);
        let mut env = self.env;
        env.pending &= !self.was_pending;
        self.was_pending = false;
        if buf.is_empty() || avail == 0 {
            env.eof = false;
        }
        match env.act(buf.len().min(avail), false) {
            Act::Normal | Act::Zero => Poll::Ready(Ok(self.copy(buf, usize::MAX))),
            Act::One => {
                self.t.partial.fetch_add(1, Ordering::SeqCst);
                Poll::Ready(Ok(self.copy(buf, 1)))
            }
            Act::Half => {
                self.t.partial.fetch_add(1, Ordering::SeqCst);
                let h = buf.len().min(avail) / 2;
                Poll::Ready(Ok(self.copy(buf, h)))
            }
            Act::Interrupt => Poll::Ready(Err(std::io::ErrorKind::Interrupted.into())),
            Act::Pending => {
                self.t.pendings.fetch_add(1, Ordering::SeqCst);
                self.was_pending = true;
                Poll::Pending
            }
            Act::Error => {
                self.t.faulted.store(true, Ordering::SeqCst);
                Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")))
            }
            Act::Eof => {
                self.t.faulted.store(true, Ordering::SeqCst);
                self.cut = true;
                Poll::Ready(Ok(0))
            }
        }
    }
    fn do_seek(&mut self, to: SeekFrom) -> Poll<std::io::Result<u64>> {
        self.t.ops.fetch_add(1, Ordering::SeqCst);
        let mut env = self.env;
        env.pending &= !self.was_pending;
        self.was_pending = false;
        match env.act(0, true) {
            Act::Error => {
                self.t.faulted.store(true, Ordering::SeqCst);
                Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")))
            }
            Act::Pending => {
                self.t.pendings.fetch_add(1, Ordering::SeqCst);
                self.was_pending = true;
                Poll::Pending
            }
            _ => {
                let p = match to {
                    SeekFrom::Start(x) => x as i64,
                    SeekFrom::End(x) => self.data.len() as i64 + x,
                    SeekFrom::Current(x) => self.pos as i64 + x,
                };
                if p < 0 {
                    return Poll::Ready(Err(std::io::ErrorKind::InvalidInput.into()));
                }
                self.pos = p as u64;
                Poll::Ready(Ok(self.pos))
            }
        }
    }
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match self.do_read(buf) {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
}
impl Seek for Source {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        match self.do_seek(to) {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
}
impl AsyncRead for Source {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let r = self.do_read(buf);
        if r.is_pending() {
            cx.waker().wake_by_ref();
        }
        r
    }
}
impl AsyncSeek for Source {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<std::io::Result<u64>> {
        let r = self.do_seek(to);
        if r.is_pending() {
            cx.waker().wake_by_ref();
        }
        r
    }
}
/// A sink whose every call may misbehave.
pub struct Sink {
    pub data: Vec<u8>,
    pub env: Env,
    pub t: Arc<Trace>,
    full: bool,
    pub was_pending: bool,
    /// bytes after which every write fails
    pub capacity: usize,
    pub flushes: usize,
    /// how many bytes it holds back until it is flushed
    pub holds: usize,
    held: Vec<u8>,
}
impl Sink {
    pub fn new(env: Env) -> Self {
        Sink { data: vec![], env, t: Arc::default(), full: false, was_pending: false, capacity: usize::MAX, flushes: 0, holds: 0, held: vec![] }
    }
    /// what was held back reaches the storage, as far as there is room
    fn release(&mut self) -> std::io::Result<()> {
        let room = self.capacity - self.data.len().min(self.capacity);
        let n = room.min(self.held.len());
        self.data.extend(self.held.drain(..n));
        if !self.held.is_empty() {
            self.t.faulted.store(true, Ordering::SeqCst);
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink is full"));
        }
        Ok(())
    }
    fn do_write(&mut self, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        self.t.ops.fetch_add(1, Ordering::SeqCst);
        if self.holds > 0 {
            if self.held.len() + buf.len() > self.holds {
                if let Err(e) = self.release() {
                    return Poll::Ready(Err(e));
                }
            }
            self.held.extend_from_slice(buf);
            return Poll::Ready(Ok(buf.len()));
        }
        if self.full {
            return Poll::Ready(Ok(0));
        }
        let room = self.capacity - self.data.len().min(self.capacity);
        if room == 0 && !buf.is_empty() {
            self.t.faulted.store(true, Ordering::SeqCst);
            return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::Other, "sink is full")));
        }
        let buf = &buf[..buf.len().min(room)];
        let mut env = self.env;
        env.pending &= !self.was_pending;
        env.eof = false;
        self.was_pending = false;
        let n = match env.act(buf.len(), false) {
            Act::Normal | Act::Eof => buf.len(),
            Act::One => {
                self.t.partial.fetch_add(1, Ordering::SeqCst);
                1
            }
            Act::Half => {
                self.t.partial.fetch_add(1, Ordering::SeqCst);
                buf.len() / 2
            }
            Act::Interrupt => return Poll::Ready(Err(std::io::ErrorKind::Interrupted.into())),
            Act::Pending => {
                self.t.pendings.fetch_add(1, Ordering::SeqCst);
                self.was_pending = true;
                return Poll::Pending;
            }
            Act::Error => {
                self.t.faulted.store(true, Ordering::SeqCst);
                return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")));
            }
            Act::Zero => {
                self.t.faulted.store(true, Ordering::SeqCst);
                self.full = true;
                0
            }
        };
        self.data.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn do_flush(&mut self) -> Poll<std::io::Result<()>> {
        self.t.ops.fetch_add(1, Ordering::SeqCst);
        self.flushes += 1;
        let mut env = self.env;
        env.pending &= !self.was_pending;
        self.was_pending = false;
        match env.act(0, true) {
            Act::Error => {
                self.t.faulted.store(true, Ordering::SeqCst);
                self.t.flush_faulted.store(true, Ordering::SeqCst);
                Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")))
            }
            Act::Pending => {
                self.t.pendings.fetch_add(1, Ordering::SeqCst);
                self.was_pending = true;
                Poll::Pending
            }
            _ => Poll::Ready(self.release()),
        }
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        match self.do_write(buf) {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self.do_flush() {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
}
impl AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let r = self.do_write(buf);
        if r.is_pending() {
            cx.waker().wake_by_ref();
        }
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let r = self.do_flush();
        if r.is_pending() {
            cx.waker().wake_by_ref();
        }
        r
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
/// Single-threaded executor. A future that is pending without having arranged a wake-up, or that
/// is polled absurdly often, never completes: that is a violation of its own.
pub fn block_on<F: Future>(f: F) -> Res<F::Output> {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    for _ in 0..100_000 {
        if !flag.0.swap(false, Ordering::SeqCst) {
            return fail("lost-wakeup", "the future is pending and nothing will wake it");
        }
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Ok(v);
        }
    }
    fail("livelock", "the future did not complete in 100000 polls")
}
pub fn iv(s: usize, l: usize) -> Interval {
    Interval::new(s, l)
}

// ---------------------------------------------------------------- editing files
use parquet_format_safe as pf;
use parquet_format_safe::thrift::protocol::{TCompactInputProtocol, TCompactOutputProtocol};
pub fn parse_footer(b: &[u8]) -> (pf::FileMetaData, usize) {
    let n = b.len();
    let len = u32::from_le_bytes(b[n - 8..n - 4].try_into().unwrap()) as usize;
    let start = n - 8 - len;
    let mut p = TCompactInputProtocol::new(&b[start..n - 8], usize::MAX / 4);
    (pf::FileMetaData::read_from_in_protocol(&mut p).expect("footer"), start)
}
pub fn footer_bytes(m: &pf::FileMetaData) -> Vec<u8> {
    let mut out = vec![];
    let mut p = TCompactOutputProtocol::new(&mut out);
    m.write_to_out_protocol(&mut p).expect("footer");
    out
}
/// appends a footer to the body of a file
pub fn with_footer(mut body: Vec<u8>, m: &pf::FileMetaData) -> Vec<u8> {
    let f = footer_bytes(m);
    body.extend(&f);
    body.extend((f.len() as u32).to_le_bytes());
    body.extend(b"PAR1");
    body
}
/// inserts `extra` between the body and the footer of a file and edits its metadata (given the offset of `extra`)
pub fn splice(b: &[u8], extra: &[u8], edit: impl FnOnce(&mut pf::FileMetaData, usize)) -> Vec<u8> {
    let (mut m, start) = parse_footer(b);
    let mut body = b[..start].to_vec();
    body.extend(extra);
    edit(&mut m, start);
    with_footer(body, &m)
}

// ---------------------------------------------------------------- files of more than 4 GiB
/// A file of which only some parts are not zero.
#[derive(Clone, Default, Debug)]
pub struct Sparse {
    /// (position, bytes), ordered and disjoint
    pub parts: Arc<Vec<(u64, Vec<u8>)>>,
    pub len: u64,
    pub pos: u64,
}
impl Sparse {
    pub fn new(parts: Vec<(u64, Vec<u8>)>) -> Self {
        let len = parts.last().map(|(p, b)| p + b.len() as u64).unwrap_or(0);
        Sparse { parts: Arc::new(parts), len, pos: 0 }
    }
    pub fn at(&self, pos: u64) -> Self {
        Sparse { pos, ..self.clone() }
    }
    /// up to `n` bytes from `pos`
    pub fn bytes(&self, pos: u64, n: usize) -> Vec<u8> {
        let mut out = vec![0; n.min(self.len.saturating_sub(pos) as usize)];
        let k = self.at(pos).copy(&mut out);
        debug_assert_eq!(k, out.len());
        out
    }
    fn copy(&mut self, buf: &mut [u8]) -> usize {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        let (a, z) = (self.pos, self.pos + n as u64);
        buf[..n].fill(0);
        for (p, b) in self.parts.iter() {
            let (s, e) = (a.max(*p), z.min(p + b.len() as u64));
            if s < e {
                buf[(s - a) as usize..(e - a) as usize].copy_from_slice(&b[(s - p) as usize..(e - p) as usize]);
            }
        }
        self.pos = z;
        n
    }
    fn to(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let p = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.len as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        self.pos = u64::try_from(p).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        Ok(self.copy(buf))
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.to(to)
    }
}
impl AsyncRead for Sparse {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(self.copy(buf)))
    }
}
impl AsyncSeek for Sparse {
    fn poll_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, to: SeekFrom) -> Poll<std::io::Result<u64>> {
        Poll::Ready(self.to(to))
    }
}
/// A sink that keeps the bytes of small writes and only the ends of large ones (zeros between them).
#[derive(Default)]
pub struct SparseSink {
    pub parts: Vec<(u64, Vec<u8>)>,
    pub pos: u64,
}
impl SparseSink {
    pub const LARGE: usize = 1 << 20;
    pub fn source(self) -> Sparse {
        let mut s = Sparse::new(self.parts);
        s.len = self.pos;
        s
    }
}
impl Write for SparseSink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut keep = |pos: u64, buf: &[u8]| match self.parts.last_mut() {
            Some((p, b)) if *p + b.len() as u64 == pos => b.extend(buf),
            _ => self.parts.push((pos, buf.to_vec())),
        };
        if buf.len() < Self::LARGE {
            keep(self.pos, buf);
        } else {
            let n = buf.len() - Self::LARGE / 4;
            keep(self.pos, &buf[..Self::LARGE / 4]);
            keep(self.pos + n as u64, &buf[n..]);
        }
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl AsyncWrite for SparseSink {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(self.write(buf))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
