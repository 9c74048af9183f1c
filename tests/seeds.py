D='src/db.rs'; C='src/chunk/chunk.rs'
GO='src/compaction/gorilla.rs'; CM='src/compaction/mod.rs'; WM='src/wal/mod.rs'; WS='src/wal/segment.rs'
SI='src/indexer/sled_indexer.rs'; SS='src/storage/sled_storage.rs'; SV='src/server.rs'; OP='src/common/option.rs'
UT='src/common/utils.rs'; LB='src/common/label.rs'; CO='src/common/mod.rs'
def mod(body): return '''
#[cfg(test)]
mod vp_demo {
    use super::*;
''' + body + '''}
'''
RT = '''
    fn round_trip(pts: &[(u64, f64)]) {
        let mut c = crate::compaction::Compactor::new(crate::compaction::CompactType::Gorilla);
        let bytes = c.compact_vec(pts.iter().map(|(t, v)| TimePoint::new(*t, *v)).collect());
        let mut d = crate::compaction::Decompactor::from(crate::compaction::CompactType::Gorilla, bytes).unwrap();
        let got: Vec<(u64, u64)> = d.decompact().unwrap().iter().map(|p| (p.timestamp, p.value.to_bits())).collect();
        let want: Vec<(u64, u64)> = pts.iter().map(|(t, v)| (*t, v.to_bits())).collect();
        assert_eq!(got, want);
    }
'''
# a real server on a loopback port, and a raw request to it
SERVER = '''
    use crate::common::time_point::TimePoint;
    use crate::indexer::{SledIndexer, SledIndexerBuilder};
    use crate::option::DbOpts;
    use crate::proto::{LabelMatcher, Query, Sample, TimeSeries as PTimeSeries};
    use crate::storage::{SledStorage, SledStorageBuilder};
    use std::io::Write;
    use std::net::{TcpListener, TcpStream};
    use std::time::Duration;
    use tempfile::TempDir;

    fn start(dir: &std::path::Path) -> (u16, Arc<MonolithDb<SledStorage, SledIndexer>>) {
        let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        let mut o = DbOpts::default();
        o.base_dir = dir.to_path_buf();
        o.chunk_size = Duration::from_secs(3600);
        let db = MonolithDb::<SledStorage, SledIndexer>::new(o, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())).unwrap();
        let mut so = ServerOpts::default();
        so.port = port as i32;
        so.worker_num = 2;
        let sdb = db.clone();
        std::thread::spawn(move || MonolithServer::new(so, sdb).serve());
        std::thread::sleep(Duration::from_millis(500));
        (port, db)
    }

    fn post(port: u16, path: &str, body: &[u8]) -> Option<u16> {
        let body = snap::raw::Encoder::new().compress_vec(body).unwrap();
        let mut s = TcpStream::connect(("127.0.0.1", port)).ok()?;
        s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        write!(s, "POST {} HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\nContent-Length: {}\\r\\n\\r\\n", path, body.len()).ok()?;
        s.write_all(&body).ok()?;
        let mut out = Vec::new();
        let _ = s.read_to_end(&mut out);
        String::from_utf8_lossy(&out).split(' ').nth(1).and_then(|c| c.parse().ok())
    }

    fn series(l: &[(&str, &str)], pts: &[(i64, f64)]) -> PTimeSeries {
        let mut t = PTimeSeries::new();
        for (k, v) in l {
            let mut x = crate::proto::Label::new();
            x.set_name(k.to_string());
            x.set_value(v.to_string());
            t.mut_labels().push(x);
        }
        for (ts, v) in pts {
            let mut x = Sample::new();
            x.set_timestamp(*ts);
            x.set_value(*v);
            t.mut_samples().push(x);
        }
        t
    }
'''
# common parts of demonstrations appended to src/db.rs
OPEN = '''
#[cfg(test)]
mod vp_demo {
    use super::*;
    use crate::indexer::{SledIndexer, SledIndexerBuilder};
    use crate::storage::{SledStorage, SledStorageBuilder};
    use crate::label::{Label, Labels};
    use tempfile::TempDir;

    type Db = MonolithDb<SledStorage, SledIndexer>;

    fn labels(v: &[(&str, &str)]) -> Labels {
        Labels::from_vec(v.iter().map(|(k, v)| Label::from_key_value(*k, *v)).collect())
    }

    fn chunk(dir: &Path, n: &str, start: Timestamp, end: Timestamp) -> Arc<Chunk<SledStorage, SledIndexer>> {
        let mut o = ChunkOpts::default();
        o.start_time = Some(start);
        o.end_time = Some(end);
        let p = dir.join(n).display().to_string();
        Arc::new(Chunk::new(
            SledStorageBuilder::new().build(p.clone(), Some(&o), None).unwrap(),
            SledIndexerBuilder::new().build(p, Some(&o), None).unwrap(),
            &o,
        ))
    }

    fn db(dir: &Path, cur: Arc<Chunk<SledStorage, SledIndexer>>, old: Vec<Arc<Chunk<SledStorage, SledIndexer>>>) -> Db {
        let mut options = DbOpts::default();
        options.base_dir = dir.to_path_buf();
        MonolithDb {
            current_chuck: RwLock::new(cur),
            secondary_chunks: RwLock::new(old),
            options,
            storage_builder: Box::new(SledStorageBuilder::new()),
            indexer_builder: Box::new(SledIndexerBuilder::new()),
        }
    }

    fn times(r: &LabelPointPairs) -> Vec<Vec<Timestamp>> {
        r.iter().map(|(_, p)| p.iter().map(|t| t.timestamp).collect()).collect()
    }
'''
SEEDS=[
dict(id='query-stops-at-first-gap', property='R05', file=D,
  needs='at least two older chunks of which the newest does not overlap the requested range',
  breaks='the scan over the older chunks, newest first, stops at the first one outside the range, so older overlapping chunks are left out',
  edits=[(D,"            for _c in chunks.iter().rev() {\n","            for _c in chunks\n                .iter()\n                .rev()\n                .take_while(|c| c.is_with_range(start_time, end_time))\n            {\n")],
  demo=OPEN+'''
    #[test]
    fn older_chunks_are_found() {
        let t = TempDir::new().unwrap();
        let (a, b, c) = (chunk(t.path(), "a", 1000, 1999), chunk(t.path(), "b", 2000, 2999), chunk(t.path(), "c", 3000, 3999));
        let l = labels(&[("job", "x")]);
        a.insert(l.clone(), TimePoint::new(1500, 1.0)).unwrap();
        b.insert(l.clone(), TimePoint::new(2500, 2.0)).unwrap();
        c.insert(l.clone(), TimePoint::new(3500, 3.0)).unwrap();
        let d = db(t.path(), c, vec![a, b]);
        assert_eq!(times(&d.query(l.clone(), 1000, 1900).unwrap()), vec![vec![1500]]);
        assert_eq!(times(&d.query(l, 0, 5000).unwrap()), vec![vec![1500, 2500, 3500]]);
    }
}
'''),
dict(id='write-stops-at-first-outsider', property='W01', file=D,
  needs='a write whose points start with one outside of the current window, followed by points inside of it',
  breaks='points after the first one outside of the window are dropped while the write is acknowledged',
  edits=[(D,"            .filter(|tp| {\n                tp.timestamp >= start_time","            .take_while(|tp| {\n                tp.timestamp >= start_time")],
  demo=OPEN+'''
    #[test]
    fn later_points_are_stored() {
        let t = TempDir::new().unwrap();
        let c = chunk(t.path(), "c", 3000, 3999);
        let l = labels(&[("job", "x")]);
        let d = db(t.path(), c, vec![]);
        let pts = vec![TimePoint::new(3100, 0.0), TimePoint::new(2500, 1.0), TimePoint::new(3500, 2.0), TimePoint::new(0, 3.0), TimePoint::new(3999, 4.0)];
        d.write_time_points(l.clone(), pts).unwrap();
        assert_eq!(times(&d.query(l, 0, 5000).unwrap()), vec![vec![3100, 3500, 3999]]);
    }
}
'''),
dict(id='rotation-closes-too-early', property='D06', file=D,
  needs='a rotation that fails while the new chunk is being prepared',
  breaks='the current chunk is closed before the new one exists, so a failed rotation leaves a closed chunk in service',
  edits=[(D,"        info!(\"Chunk swap, new chunk with start time {}\", start_time);\n","        info!(\"Chunk swap, new chunk with start time {}\", start_time);\n        self.current_chuck.read().unwrap().close();\n")],
  demo=OPEN+'''
    #[test]
    fn failed_rotation_changes_nothing() {
        let t = TempDir::new().unwrap();
        let c = chunk(t.path(), "c", 3000, 3999);
        // a file where the base directory should be makes every rotation fail
        let f = t.path().join("file");
        fs::write(&f, b"x").unwrap();
        let d = db(&f, c.clone(), vec![]);
        assert!(d.swap(4000).is_err());
        assert!(!c.is_closed());
        assert!(d.secondary_chunks.read().unwrap().is_empty());
        let d = db(t.path(), c.clone(), vec![]);
        d.swap(4000).unwrap();
        assert!(c.is_closed());
    }
}
'''),
dict(id='reopen-skips-unreadable', property='D03', file=D,
  needs='a chunk directory whose storage cannot be opened when the database is reopened',
  breaks='a chunk that cannot be opened is left out silently instead of making opening fail',
  edits=[(D,"""                    let storage = storage_builder
                        .read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;""","""                    let storage = storage_builder
                        .read_from_chunk(&path.join("storage"), Some(&chunk_opts))
                        .unwrap_or(None);""")],
  demo=OPEN+'''
    struct Broken;
    impl Builder<SledStorage> for Broken {
        fn build(&self, _: String, _: Option<&ChunkOpts>, _: Option<&DbOpts>) -> Result<SledStorage> { unimplemented!() }
        fn write_to_chunk(&self, _: &Path) -> Result<()> { unimplemented!() }
        fn read_from_chunk(&self, _: &Path, _: Option<&ChunkOpts>) -> Result<Option<SledStorage>> {
            Err(MonolithErr::InternalErr("disk failure".to_string()))
        }
        fn write_config(&self, _: &Path) -> Result<()> { unimplemented!() }
        fn read_config(&self, _: &Path) -> Result<()> { unimplemented!() }
    }

    #[test]
    fn unreadable_chunk_fails_opening() {
        let t = TempDir::new().unwrap();
        let mut o = ChunkOpts::default();
        o.start_time = Some(1000);
        o.end_time = Some(2000);
        o.write_config_to_dir(&t.path().join(encode_chunk_dir(1000, 2000))).unwrap();
        let sb: Box<dyn Builder<SledStorage> + Sync + Send> = Box::new(Broken);
        let ib: Box<dyn Builder<SledIndexer> + Sync + Send> = Box::new(SledIndexerBuilder::new());
        assert!(Db::read_existing_chunk(t.path(), &sb, &ib).is_err());
    }
}
'''),
dict(id='chunk-end-exclusive', property='W03', file=D,
  needs='a point whose timestamp is exactly the end of the window of the current chunk',
  breaks='the write path drops a point at the inclusive end of the window and acknowledges the write',
  edits=[(D,"tp.timestamp <= end_time && tp.timestamp != 0","(tp.timestamp < end_time || end_time == start_time) && tp.timestamp != 0")],
  demo=OPEN+'''
    #[test]
    fn both_ends_are_stored() {
        let t = TempDir::new().unwrap();
        let c = chunk(t.path(), "c", 3000, 3999);
        let l = labels(&[("job", "x")]);
        let d = db(t.path(), c, vec![]);
        d.write_time_points(l.clone(), vec![TimePoint::new(3000, 1.0), TimePoint::new(3999, 4.0)]).unwrap();
        assert_eq!(times(&d.query(l, 0, 5000).unwrap()), vec![vec![3000, 3999]]);
    }
}
'''),

dict(id='gorilla-window-off-by-one', property='G02', file=GO, sel='--lib',
  needs='a value whose XOR with the previous one reaches exactly one bit below the current window',
  breaks='the compressor reuses the previous bit window although the lowest significant bit lies just outside of it',
  edits=[(GO,"leading >= self.leading && trailing >= self.tailing","leading >= self.leading && trailing + 1 >= self.tailing")],
  demo=mod(RT+'''
    #[test]
    fn window_edge() {
        let f = f64::from_bits;
        round_trip(&[(1, f(0)), (2, f(0xff00)), (3, f(0)), (4, f(0x0180)), (5, f(0x8180)), (6, f(0x80))]);
    }
''')),
dict(id='gorilla-wide-step-unsigned', property='G06', file=GO, sel='--lib',
  needs='a step between two points that shrinks by more than 32768',
  breaks='a 32 bit change of the step is decoded without its sign, so a shrinking step yields times far in the future',
  edits=[(GO,"self.d = i32::from_be_bytes(","self.d = u32::from_be_bytes(")],
  demo=mod(RT+'''
    #[test]
    fn shrinking_steps() {
        round_trip(&[(1000, 1.0), (1100, 2.0), (101_100, 3.0), (101_110, 4.0), (9_000_000_000, 5.0), (9_000_000_001, 6.0)]);
    }
''')),
dict(id='codec-foreign-tag', property='G04', file=CM, sel='--lib',
  needs='bytes whose last byte is neither the tag of the gorilla codec nor that of the uncompressed one',
  breaks='bytes with an unknown or missing type tag are accepted as gorilla data',
  edits=[(CM,"                if t != CompactType::Gorilla as u8 {","                if t == CompactType::Simple as u8 || t == CompactType::None as u8 {")],
  demo=mod('''
    #[test]
    fn unknown_tags_are_refused() {
        for t in 0..=255u8 {
            let data = vec![0u8, 0, 0, 0, t];
            assert_eq!(Decompactor::from(CompactType::Gorilla, data).is_ok(), t == 1, "tag {}", t);
        }
        assert!(Decompactor::from(CompactType::Gorilla, vec![]).is_err());
    }
''')),
dict(id='seeker-reads-free-bits', property='G05', file=CM, sel='--lib',
  needs='a read that ends inside the last, partly filled byte but beyond its used bits',
  breaks='the end of the stream is only noticed when a byte boundary is crossed, so unused bits are delivered as data',
  edits=[(CM,"            let n = if self.cursor + n > self.data.bitlen() {","            let n = if (self.cursor + n + 7) / 8 > (self.data.bitlen() + 7) / 8 {")],
  demo=mod('''
    #[test]
    fn only_written_bits_are_read() {
        let mut b = Bstream::new();
        for _ in 0..11 { b.write_one(); }
        let mut s = BstreamSeeker::new(b);
        let mut out = [0u8; 2];
        assert_eq!(s.read_next_n_bit(&mut out, 9), 9);
        assert_eq!(s.read_next_n_bit(&mut out, 5), 2);
        assert_eq!(s.read_next_n_bit(&mut out, 1), 0);
    }
''')),
dict(id='wal-crc-counts-prefix-twice', property='L01', file=WM, sel='--lib',
  needs='an entry whose data is pushed in more than one piece',
  breaks='the checksum of an entry covers its earlier data again with every push',
  edits=[(WM,"        self.crc.write(content.as_slice());\n        self.content.append(content.as_mut())","        self.content.append(content.as_mut());\n        self.crc.write(self.content.as_slice());")],
  demo=mod('''
    #[test]
    fn checksum_of_pieces() {
        let mut e = Entry::new(7, EntryType::Default);
        e.push(vec![1, 2, 3]);
        e.push(vec![4, 5]);
        let b = e.get_bytes();
        assert_eq!(&b[11..16], &[1, 2, 3, 4, 5]);
        assert_eq!(&b[16..], &crc::crc32::checksum_ieee(&[1, 2, 3, 4, 5]).to_be_bytes()[..]);
    }
''')),
dict(id='wal-size-not-accumulated', property='L02', file=WS, sel='--lib',
  needs='a size based segment and more than two entries, each well below the limit',
  breaks='the cached size is that of the last entry only, so entries stay in memory long after the limit is reached',
  edits=[(WS,"                    *size += entry_len;","                    *size = entry_len;")],
  demo=mod('''
    #[derive(Clone)]
    struct Sink(Arc<Mutex<Vec<u8>>>);
    impl Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    #[test]
    fn limit_is_on_the_sum() {
        let out = Sink(Arc::new(Mutex::new(vec![])));
        let mut s = Segment::new(FlushPolicy::SizeBased(60), out.clone()).unwrap();
        for i in 0..4u64 {
            let mut e = Entry::new(i, crate::wal::EntryType::Default);
            e.push(vec![1]);
            s.write_entry(e).unwrap();
        }
        assert_eq!(out.0.lock().unwrap().len(), 8 + 4 * 16);
    }
''')),
dict(id='wal-flush-failure-ignored', property='L03', file=WS, sel='--lib',
  needs='an underlying writer that fails only when it is flushed',
  breaks='a flush of the underlying writer that fails is reported as success',
  edits=[(WS,"        self.writer.flush()\n    }","        let _ = self.writer.flush();\n        Ok(())\n    }")],
  demo=mod('''
    struct Failing(bool);
    impl Write for Failing {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 = b.len() != 8; Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> {
            if self.0 { Err(std::io::Error::new(std::io::ErrorKind::Other, "full")) } else { Ok(()) }
        }
    }
    #[test]
    fn failing_flush_is_reported() {
        let mut s = Segment::new(FlushPolicy::Immediate, Failing(false)).unwrap();
        let mut e = Entry::default();
        e.push(vec![1, 2, 3]);
        assert!(s.write_entry(e).is_err());
    }
''')),
dict(id='label-value-last-equals', property='W06', file=SI, sel='--lib',
  needs='a label whose value contains an equals sign',
  breaks='a stored label is split at the last equals sign, so part of its value moves into its name',
  edits=[(SI,'pair.find("=")','pair.rfind("=")')],
  demo=mod('''
    #[test]
    fn values_with_equals_signs() {
        let t = tempfile::TempDir::new().unwrap();
        let ix = SledIndexer::new(t.path()).unwrap();
        let l = Labels::from_vec(vec![Label::from_key_value("expr", "a==b=c"), Label::from_key_value("job", "x")]);
        ix.create_index(l.clone(), 5).unwrap();
        let r = ix.get_series_metadata_contains_labels(Labels::from_vec(vec![Label::from_key_value("job", "x")])).unwrap();
        assert_eq!(r.len(), 1);
        assert_eq!(r[0].0, 5);
        assert!(r[0].1 == l);
    }
''')),
dict(id='sled-skips-corrupt-ids', property='R06', file=SI, sel='--lib',
  needs='an id list in the index with an entry that cannot be decoded',
  breaks='undecodable entries of an id list are skipped, so series silently miss from query results',
  edits=[(SI,"                res.push(id.parse::<u64>()?);","                res.extend(id.parse::<u64>().ok());")],
  demo=mod('''
    #[test]
    fn corrupt_list_is_an_error() {
        let t = tempfile::TempDir::new().unwrap();
        let ix = SledIndexer::new(t.path()).unwrap();
        let l = Labels::from_vec(vec![Label::from_key_value("job", "x")]);
        ix.create_index(l.clone(), 5).unwrap();
        assert_eq!(ix.get_series_id_contains_labels(l.clone()).unwrap(), vec![5]);
        ix.storage.set("LRjob=x", &b"5,x7,8"[..]).unwrap();
        assert!(ix.get_series_id_contains_labels(l).is_err());
    }
''')),
dict(id='intersect-skips-two', property='R03', file=CO, sel='--lib',
  needs='lists in which the id after the next one of the longer list equals the current id of the other',
  breaks='a faster advance over the longer list steps over an id that both lists contain',
  edits=[(CO,"            } else if self.index(i) > other.index(j) {\n                j += 1;","            } else if self.index(i) > other.index(j) {\n                // skip two at once where possible\n                j += if j + 1 < other.len() && self.index(i) >= other.index(j + 1) { 2 } else { 1 };")],
  demo=mod('''
    #[test]
    fn common_ids_of_shifted_lists() {
        let a: Vec<TimeSeriesId> = vec![2, 7, 9];
        let b: Vec<TimeSeriesId> = vec![1, 2, 3, 4, 7, 9];
        assert_eq!(a.order_intersect(&b), vec![2, 7, 9]);
        assert_eq!(b.order_intersect(&a), vec![2, 7, 9]);
    }
''')),
dict(id='chunk-dir-start-32-bits', property='D02', file=UT, sel='--lib',
  needs='a chunk whose start time, in milliseconds, does not fit 32 bits, as every present-day one',
  breaks='decoding a chunk directory name truncates the start time to 32 bits',
  edits=[(UT,">> 64) as u64;",">> 64) as u32 as u64;")],
  demo=mod('''
    #[test]
    fn present_day_windows() {
        for (s, e) in vec![(1_700_000_000_000u64, 1_700_000_012_000u64), (0, 1), (u64::max_value(), u64::max_value())] {
            assert_eq!(decode_chunk_dir(encode_chunk_dir(s, e)).unwrap(), (s, e));
        }
    }
''')),
dict(id='label-name-case', property='E01', file=LB, sel='--lib',
  needs='two labels whose names differ in case only',
  breaks='labels with names that differ in case only compare equal, although they hash differently',
  edits=[(LB,"        self.key.eq(&other.key) && self.value.eq(&other.value)","        self.key.eq_ignore_ascii_case(&other.key) && self.value.eq(&other.value)")],
  demo=mod('''
    #[test]
    fn case_matters() {
        assert!(Label::from_key_value("Job", "x") != Label::from_key_value("job", "x"));
        assert!(Label::from_key_value("job", "x") == Label::from_key_value("job", "x"));
    }
''')),
dict(id='matcher-value-trimmed', property='S03', file=LB, sel='--lib',
  needs='a query for a label value with leading or trailing white space',
  breaks='the value of a matcher is trimmed on its way from the wire',
  edits=[(LB,"            value: label_matcher.value.clone(),","            value: label_matcher.value.trim().to_string(),")],
  demo=mod('''
    #[test]
    fn matcher_is_taken_as_it_is() {
        let mut m = LabelMatcher::new();
        m.set_name("path".to_string());
        m.set_value(" /tmp ".to_string());
        let l = Label::from_label_matcher(&m);
        assert_eq!(l.key(), "path");
        assert_eq!(l.value(), " /tmp ");
    }
''')),
dict(id='read-path-as-prefix', property='S01', file=SV, sel='--lib',
  needs='a request to a path that merely starts with the read path',
  breaks='requests to other paths that start with the read path are served as reads instead of being answered with 404',
  edits=[(SV,"            (_, read_path) if read_path == server.read_path => {","            (_, read_path) if read_path.starts_with(server.read_path) => {")],
  demo=mod(SERVER+'''
    #[test]
    fn unknown_paths() {
        let t = TempDir::new().unwrap();
        let (port, _db) = start(t.path());
        assert_eq!(post(port, "/other", b"x"), Some(404));
        assert_eq!(post(port, "/readiness", b""), Some(404));
        assert_eq!(post(port, "/read", b""), Some(500));
    }
''')),
dict(id='empty-read-panics', property='S02', file=SV, sel='--lib',
  needs='a read request with an empty message',
  breaks='an empty read request is reported through an error that does not exist, and the panic ends the server',
  edits=[(SV,"                    if read.is_err() {\n                        error!(","                    if read_req.compute_size() == 0 {\n                        error!(")],
  demo=mod(SERVER+'''
    #[test]
    fn empty_request_is_answered() {
        let t = TempDir::new().unwrap();
        let (port, _db) = start(t.path());
        static PANICS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        std::panic::set_hook(Box::new(|_| {
            PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        }));
        // as with a logger installed
        log::set_max_level(log::LevelFilter::Info);
        assert_eq!(post(port, "/read", b""), Some(500));
        assert_eq!(post(port, "/write", b""), Some(200));
        std::thread::sleep(std::time::Duration::from_millis(500));
        let n = PANICS.load(std::sync::atomic::Ordering::SeqCst);
        std::panic::take_hook();
        assert_eq!(n, 0, "a request made the server panic");
    }
''')),
dict(id='write-stops-at-empty-series', property='W01', file=SV, sel='--lib',
  needs='a write request in which a series without samples comes before one with samples',
  breaks='the series after one without samples are not stored while the request is acknowledged',
  edits=[(SV,"            let _ts: TimeSeries = TimeSeries::from(&time_series);\n","            let _ts: TimeSeries = TimeSeries::from(&time_series);\n            if _ts.time_points().is_empty() {\n                return Ok(());\n            }\n")],
  demo=mod(SERVER+'''
    #[test]
    fn series_after_an_empty_one() {
        let t = TempDir::new().unwrap();
        let (port, db) = start(t.path());
        let now = crate::utils::get_current_timestamp() as i64 + 1000;
        let mut w = WriteRequest::new();
        w.mut_timeseries().push(series(&[("job", "a")], &[(now, 1.0)]));
        w.mut_timeseries().push(series(&[("job", "b")], &[]));
        w.mut_timeseries().push(series(&[("job", "c")], &[(now, 3.0)]));
        assert_eq!(post(port, "/write", &w.write_to_bytes().unwrap()), Some(200));
        let q = |v: &str| db.query(Labels::from_vec(vec![Label::from_key_value("job", v)]), 0, now as u64 + 10).unwrap().len();
        assert_eq!((q("a"), q("c")), (1, 1));
    }
''')),
dict(id='highest-port-refused', property='O01', file=OP, sel='--lib',
  needs='the port 65535',
  breaks='the highest port is refused although it is allowed',
  edits=[(OP,"        if port > 65535 || port < 1024 {","        if port >= 65535 || port < 1024 {")],
  demo=mod('''
    use clap::{App, Arg};
    fn port(p: &str) -> bool {
        let a = App::new("x").args(&[
            Arg::with_name(WORKER_NUM).long(WORKER_NUM).default_value("8"),
            Arg::with_name(PORT).long(PORT).default_value("9001"),
            Arg::with_name(WRITE_PATH).long(WRITE_PATH).default_value("/w"),
            Arg::with_name(READ_PATH).long(READ_PATH).default_value("/r"),
        ]);
        let m = a.get_matches_from(vec!["x", "--port", p]);
        let r = ServerOpts::get_config(&m).is_ok();
        r
    }
    #[test]
    fn limits_of_the_port() {
        assert!(port("1024") && port("65535") && port("9001"));
        assert!(!port("1023") && !port("65536") && !port("x"));
    }
''')),
dict(id='insert-under-read-lock', property='K01', file=C, sel='--lib',
  needs='two writers that insert the first point of the same series at the same time',
  breaks='inserts only take the shared lock, so two of them can both find the series missing and create it twice',
  edits=[(C,"        let _m = self\n            .mutex\n            .write()\n            .expect(\"Poisoned mutex when try to insert into chunk\");","        let _m = self\n            .mutex\n            .read()\n            .expect(\"Poisoned mutex when try to insert into chunk\");")],
  demo=mod('''
    use crate::common::time_series::TimeSeriesId;
    use crate::{HasTypeName, Value};
    use std::sync::atomic::AtomicUsize;
    use std::sync::Arc;
    use std::time::Duration;

    struct St;
    impl HasTypeName for St { fn get_type_name() -> &'static str { "St" } }
    impl Storage for St {
        fn write_time_point(&self, _: TimeSeriesId, _: Timestamp, _: Value) -> Result<()> { Ok(()) }
        fn read_time_series(&self, _: TimeSeriesId, _: Timestamp, _: Timestamp) -> Result<Vec<TimePoint>> { unimplemented!() }
    }
    struct Ix(Arc<AtomicUsize>);
    impl HasTypeName for Ix { fn get_type_name() -> &'static str { "Ix" } }
    impl Indexer for Ix {
        fn get_series_metadata_contains_labels(&self, _: Labels) -> Result<Vec<(TimeSeriesId, Labels)>> { unimplemented!() }
        fn get_series_id_contains_labels(&self, _: Labels) -> Result<Vec<TimeSeriesId>> { unimplemented!() }
        fn get_series_id_by_labels(&self, _: Labels) -> Result<Option<TimeSeriesId>> {
            let n = self.0.load(Ordering::SeqCst);
            std::thread::sleep(Duration::from_millis(300));
            Ok(if n == 0 { None } else { Some(1) })
        }
        fn create_index(&self, _: Labels, _: TimeSeriesId) -> Result<()> { self.0.fetch_add(1, Ordering::SeqCst); Ok(()) }
    }

    #[test]
    fn a_series_is_created_once() {
        let n = Arc::new(AtomicUsize::new(0));
        let mut o = ChunkOpts::default();
        o.start_time = Some(0);
        o.end_time = Some(100);
        let c = Arc::new(Chunk::new(St, Ix(n.clone()), &o));
        let hs: Vec<_> = (1..4u64).map(|i| { let c = c.clone(); std::thread::spawn(move || c.insert(Labels::new(), TimePoint::new(i, 1.0)).unwrap()) }).collect();
        for h in hs { h.join().unwrap(); }
        assert_eq!(n.load(Ordering::SeqCst), 1);
    }
''')),
dict(id='chunk-query-stops-at-gap', property='R04', file=C, sel='--lib',
  needs='a query range that lies between two points of one matching series while later matching series have points in it',
  breaks='the first matching series without a point in the range ends the scan over the matching series',
  edits=[(C,"                continue; //skip empty series","                break; //skip empty series")],
  demo=mod('''
    use crate::indexer::SledIndexer;
    use crate::storage::SledStorage;
    use crate::label::Label;
    #[test]
    fn series_after_one_with_a_gap() {
        let t = tempfile::TempDir::new().unwrap();
        let mut o = ChunkOpts::default();
        o.start_time = Some(0);
        o.end_time = Some(1000);
        let c = Chunk::new(SledStorage::new(&t.path().join("s")).unwrap(), SledIndexer::new(&t.path().join("i")).unwrap(), &o);
        let l = |i: &str| Labels::from_vec(vec![Label::from_key_value("job", "x"), Label::from_key_value("inst", i)]);
        for ts in vec![10, 900] { c.insert(l("a"), TimePoint::new(ts, 1.0)).unwrap(); }
        for ts in vec![10, 500, 900] { c.insert(l("b"), TimePoint::new(ts, 2.0)).unwrap(); }
        let r = c.query(Labels::from_vec(vec![Label::from_key_value("job", "x")]), 400, 600).unwrap();
        assert_eq!(r.len(), 1);
        assert_eq!(r[0].time_points().iter().map(|p| p.timestamp).collect::<Vec<_>>(), vec![500]);
    }
''')),
dict(id='first-point-at-range-end', property='R01', file=SS, sel='--lib',
  needs='a range that ends exactly at the first point of a series',
  breaks='a series whose only point in range is its first one, at the end of the range, is taken for out of range',
  edits=[(SS,"        if series.first().unwrap().timestamp > end_time","        if series.first().unwrap().timestamp >= end_time")],
  demo=mod('''
    #[test]
    fn ends_are_included() {
        let t = tempfile::TempDir::new().unwrap();
        let s = SledStorage::new(t.path()).unwrap();
        for ts in vec![100, 200, 300] { s.write_time_point(1, ts, 1.0).unwrap(); }
        let ts = |a, b| s.read_time_series(1, a, b).unwrap().iter().map(|p| p.timestamp).collect::<Vec<_>>();
        assert_eq!(ts(0, 100), vec![100]);
        assert_eq!(ts(300, 900), vec![300]);
        assert_eq!(ts(100, 300), vec![100, 200, 300]);
    }
''')),
dict(id='repeated-point-not-stored', property='W02', file=SS, sel='--lib',
  needs='the same timestamp and value written twice in a row',
  breaks='a point equal to the last one is acknowledged without being stored, and a point split over a boundary is mistaken for it',
  edits=[(SS,"            current_val_bytes.append(&mut value);","            if current_val_bytes.ends_with(&value) {\n                return Ok(());\n            }\n            current_val_bytes.append(&mut value);")],
  demo=mod('''
    #[test]
    fn every_point_is_kept() {
        let t = tempfile::TempDir::new().unwrap();
        let s = SledStorage::new(t.path()).unwrap();
        for _ in 0..3 { s.write_time_point(1, 100, 1.5).unwrap(); }
        assert_eq!(s.read_time_series(1, 0, 200).unwrap().len(), 3);
    }
''')),
dict(id='one-backend-may-differ', property='D01', file=D,
  needs='a directory created with the same storage but another index backend than now requested',
  breaks='opening is only refused when both backends differ from the recorded ones',
  edits=[(D,"            if metadata.indexer_type != db_metadata.indexer_type\n                || metadata","            if metadata.indexer_type != db_metadata.indexer_type\n                && metadata")],
  demo=OPEN+'''
    #[test]
    fn each_backend_counts() {
        let t = TempDir::new().unwrap();
        let m = |i: &str, s: &str| DbMetadata { indexer_type: i.to_string(), storage_type: s.to_string() };
        Db::read_or_create_metadata(t.path(), &m("a", "b")).unwrap();
        Db::read_or_create_metadata(t.path(), &m("a", "b")).unwrap();
        assert!(Db::read_or_create_metadata(t.path(), &m("a", "c")).is_err());
        assert!(Db::read_or_create_metadata(t.path(), &m("c", "b")).is_err());
        assert!(Db::read_or_create_metadata(t.path(), &m("c", "d")).is_err());
    }
}
'''),
dict(id='query-takes-old-chunks-first', property='K02', file=D,
  needs='a query and a rotation at the same time, each between its two lock acquisitions',
  breaks='queries lock the older chunks before the current one while a rotation locks them the other way round',
  edits=[(D,"        let res_ref = &mut res;\n        //insert in reverse","        let res_ref = &mut res;\n        let _older = self.secondary_chunks.read().unwrap();\n        //insert in reverse"),
         (D,"            let chunks = &self.secondary_chunks.read().unwrap();","            let chunks = &_older;")],
  demo=OPEN+'''
    #[test]
    fn queries_and_rotations_finish() {
        let t = TempDir::new().unwrap();
        let c = chunk(t.path(), "c", 0, 10);
        let d = Arc::new(db(t.path(), c, vec![]));
        // hold the current chunk while a query starts, then take the list of older chunks
        let d2 = d.clone();
        let (tx, rx) = channel::<()>();
        let q = {
            let cur = d.current_chuck.write().unwrap();
            let q = thread::spawn(move || { d2.query(labels(&[("a", "b")]), 100, 200).unwrap(); tx.send(()).unwrap(); });
            thread::sleep(Duration::from_millis(500));
            assert!(d.secondary_chunks.try_write().is_ok(), "a waiting query holds the older chunks");
            drop(cur);
            q
        };
        assert!(rx.recv_timeout(Duration::from_secs(20)).is_ok());
        q.join().unwrap();
    }
}
'''),
]
