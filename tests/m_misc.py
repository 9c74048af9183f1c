import re
D='src/db.rs'; C='src/chunk/chunk.rs'; S='src/server.rs'
db=open('/repo/'+D).read(); sv=open('/repo/'+S).read(); ck=open('/repo/'+C).read()
def between(s,a,b):
    i=s.index(a); j=s.index(b,i); return s[i:j]
QUERY=between(db,"        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();","    fn swap(&self")
WRITE=between(db,"        let _c = &self.current_chuck.read().unwrap();\n        let (start_time, end_time)","    pub fn write_time_point(&self")
NEWCH=between(db,"        let mut chunk_opt = ChunkOpts::default();\n        chunk_opt.start_time = Some(current_time);","        let (swap_tx, swap_rx)")
SWAPC=between(db,"        let mut chunk_opt = ChunkOpts::default();\n        chunk_opt.start_time = Some(start_time);","        {\n            let mut current = self.current_chuck.write()")
HELPER='''    fn new_chunk(
        options: &DbOpts,
        sb: &Box<dyn Builder<S> + Sync + Send>,
        ib: &Box<dyn Builder<I> + Sync + Send>,
        start: Timestamp,
    ) -> Result<Chunk<S, I>> {
        let end = start + options.chunk_size.as_millis() as Timestamp;
        let opts = ChunkOpts { start_time: Some(start), end_time: Some(end), ..ChunkOpts::default() };
        let dir = options.base_dir.join(encode_chunk_dir(start, end));
        sb.write_to_chunk(&dir)?;
        ib.write_to_chunk(&dir)?;
        opts.write_config_to_dir(&dir).map_err(|_| {
            error!("Cannot create metadata file for chunk");
            MonolithErr::InternalErr("Cannot create metadata file for chunk".to_string())
        })?;
        let path = dir.display().to_string();
        let storage = sb.build(path.clone(), Some(&opts), Some(options))?;
        let indexer = ib.build(path, Some(&opts), Some(options))?;
        Ok(Chunk::new(storage, indexer, &opts))
    }

'''
PROC=between(sv,"        //Convert request content","    pub fn query(&self")
INS=between(ck,"        let id = self.indexer.get_series_id_by_labels(labels.clone())?;","    pub fn query(")
CQ=between(ck,"        let mut res = Vec::new();\n        for (id, metadata) in candidates {","    pub fn is_with_range")
REOPEN=between(db,"        let mut res = Vec::new();\n        for entry in fs::read_dir(dir)? {","    /// Write time points with same")
def helper_read(body): return body
SPLIT='''        let (status, body) = match Self::_answer(&server, &mut request) {
            Ok(Some(body)) => (200, body),
            Ok(None) => (404, Vec::new()),
            Err(err) => {
                error!("{}", err);
                (500, Vec::new())
            }
        };
        if body.is_empty() {
            let _ = request.respond(Response::empty(status));
        } else {
            let _ = request.respond(Response::from_data(body));
        }
    }
'''
M=[
('mi-chunk-helper','',[(D,NEWCH,"        let chunk = Self::new_chunk(&ops, &storage_builder, &indexer_builder, current_time)?;\n"),
  (D,SWAPC,"        let chunk = Self::new_chunk(&self.options, &self.storage_builder, &self.indexer_builder, start_time)?;\n"),
  (D,"    fn swap(&self",HELPER+"    fn swap(&self")]),
('mi-chunk-helper-bad','D06',[(D,NEWCH,"        let chunk = Self::new_chunk(&ops, &storage_builder, &indexer_builder, current_time)?;\n"),
  (D,SWAPC,"        let chunk = Self::new_chunk(&self.options, &self.storage_builder, &self.indexer_builder, start_time)?;\n"),
  (D,"    fn swap(&self",HELPER.replace("as_millis()","as_secs()")+"    fn swap(&self")]),
('mi-w-snapshot','',[(D,WRITE,'''        let _c = self.current_chuck.read().unwrap().clone();
        let (start_time, end_time) = _c.start_end_time();
        let mut failed = 0usize;
        timepoints
            .into_iter()
            .filter(|tp| tp.timestamp != 0)
            .filter(|tp| start_time <= tp.timestamp && tp.timestamp <= end_time)
            .for_each(|tp| {
                if _c.insert(labels.clone(), tp).is_err() {
                    failed += 1;
                }
            });
        if failed > 0 {
            error!("{} time point failed to insert", failed);
            return Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()));
        }
        Ok(())
    }

''')]),
('mi-w-contains','',[(D,WRITE,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let window = start_time..=end_time;
        let results: Vec<Result<()>> = timepoints
            .into_iter()
            .filter(|tp| tp.timestamp != 0 && window.contains(&tp.timestamp))
            .map(|tp| current.insert(labels.clone(), tp))
            .collect();
        let failed = results.iter().filter(|r| r.is_err()).count();
        match failed {
            0 => Ok(()),
            n => {
                error!("{} time point failed to insert", n);
                Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
            }
        }
    }

''')]),
('mi-w-fold','',[(D,WRITE,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let failed = timepoints.into_iter().fold(0, |failed, tp| {
            let ts = tp.timestamp;
            if ts == 0 || ts < start_time || ts > end_time {
                return failed;
            }
            match current.insert(labels.clone(), tp) {
                Ok(()) => failed,
                Err(_) => failed + 1,
            }
        });
        if failed != 0 {
            error!("{} time point failed to insert", failed);
            Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
        } else {
            Ok(())
        }
    }

''')]),
('mi-w-fold-bad','W01',[(D,WRITE,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let failed = timepoints.into_iter().fold(0, |_, tp| {
            let ts = tp.timestamp;
            if ts == 0 || ts < start_time || ts > end_time {
                return 0;
            }
            match current.insert(labels.clone(), tp) {
                Ok(()) => 0,
                Err(_) => 1,
            }
        });
        if failed != 0 {
            error!("{} time point failed to insert", failed);
            Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
        } else {
            Ok(())
        }
    }

''')]),
('mi-w-fold-good','',[(D,WRITE,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let failed = timepoints.into_iter().fold(false, |bad, tp| {
            let ts = tp.timestamp;
            if ts == 0 || ts < start_time || ts > end_time {
                return bad;
            }
            match current.insert(labels.clone(), tp) {
                Ok(()) => bad,
                Err(_) => true,
            }
        });
        if failed {
            error!("{} time point failed to insert", failed);
            Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
        } else {
            Ok(())
        }
    }

''')]),
('mi-w-fold-bad2','W01',[(D,WRITE,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let failed = timepoints.into_iter().fold(false, |bad, tp| {
            let ts = tp.timestamp;
            if ts == 0 || ts < start_time || ts > end_time {
                return bad;
            }
            match current.insert(labels.clone(), tp) {
                Ok(()) => false,
                Err(_) => true,
            }
        });
        if failed {
            error!("{} time point failed to insert", failed);
            Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
        } else {
            Ok(())
        }
    }

''')]),
('mi-q-chrono','',[(D,QUERY,'''        let current = self.current_chuck.read().unwrap();
        let older = self.secondary_chunks.read().unwrap();
        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
        for chunk in older.iter().chain(std::iter::once(&*current)) {
            if !chunk.is_with_range(start_time, end_time) {
                continue;
            }
            for series in chunk.query(labels.clone(), start_time, end_time)? {
                res.entry(series.meta_data().clone())
                    .or_insert_with(Vec::new)
                    .extend(series.time_points().iter().cloned());
            }
        }
        Ok(res.into_iter().collect())
    }

''')]),
('mi-q-chrono2','',[(D,QUERY,'''        let current = self.current_chuck.read().unwrap();
        let older = self.secondary_chunks.read().unwrap();
        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
        for chunk in older.iter() {
            Self::add(&mut res, chunk, &labels, start_time, end_time)?;
        }
        Self::add(&mut res, &current, &labels, start_time, end_time)?;
        Ok(res.into_iter().collect())
    }

    fn add(res: &mut HashMap<Labels, Vec<TimePoint>>, chunk: &Chunk<S, I>, labels: &Labels, start_time: Timestamp, end_time: Timestamp) -> Result<()> {
        if chunk.is_with_range(start_time, end_time) {
            for series in chunk.query(labels.clone(), start_time, end_time)? {
                let points = series.time_points().clone();
                match res.get_mut(series.meta_data()) {
                    Some(old) => old.extend(points),
                    None => {
                        res.insert(series.meta_data().clone(), points);
                    }
                }
            }
        }
        Ok(())
    }

''')]),
('mi-q-chrono-bad','R05',[(D,QUERY,'''        let current = self.current_chuck.read().unwrap();
        let older = self.secondary_chunks.read().unwrap();
        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
        Self::add(&mut res, &current, &labels, start_time, end_time)?;
        for chunk in older.iter() {
            Self::add(&mut res, chunk, &labels, start_time, end_time)?;
        }
        Ok(res.into_iter().collect())
    }

    fn add(res: &mut HashMap<Labels, Vec<TimePoint>>, chunk: &Chunk<S, I>, labels: &Labels, start_time: Timestamp, end_time: Timestamp) -> Result<()> {
        if chunk.is_with_range(start_time, end_time) {
            for series in chunk.query(labels.clone(), start_time, end_time)? {
                let points = series.time_points().clone();
                match res.get_mut(series.meta_data()) {
                    Some(old) => old.extend(points),
                    None => {
                        res.insert(series.meta_data().clone(), points);
                    }
                }
            }
        }
        Ok(())
    }

''')]),
('mi-q-sort','',[(D,"        //reverse time again before return\n","        for points in res.values_mut() {\n            points.reverse();\n            points.sort_by_key(|p| p.timestamp);\n            points.reverse();\n        }\n        //reverse time again before return\n")]),
('mi-q-lock-first','',[(D,"        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref = &mut res;\n","        let _c = &self.current_chuck.read().unwrap();\n        let chunks = &self.secondary_chunks.read().unwrap();\n        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref = &mut res;\n"),
  (D,"        //would show the same chunk twice\n        let _c = &self.current_chuck.read().unwrap();\n","        //would show the same chunk twice\n"),
  (D,"            let chunks = &self.secondary_chunks.read().unwrap();\n            for _c","            for _c")]),
('mi-i-closure','',[(C,INS,'''        let id = self.indexer.get_series_id_by_labels(labels.clone())?.map(Ok).unwrap_or_else(|| {
            let new_id = self.id_generator.next();
            self.indexer.create_index(labels.clone(), new_id).map(|_| new_id)
        })?;
        self.storage.write_time_point(id, timepoint.timestamp, timepoint.value)
    }

''')]),
('mi-i-helper','',[(C,INS,'''        let TimePoint { timestamp, value } = timepoint;
        let id = self.id_of(labels)?;
        self.storage.write_time_point(id, timestamp, value)
    }

    fn id_of(&self, labels: Labels) -> Result<u64> {
        if let Some(id) = self.indexer.get_series_id_by_labels(labels.clone())? {
            return Ok(id);
        }
        let id = self.id_generator.next();
        self.indexer.create_index(labels, id)?;
        Ok(id)
    }

''')]),
('mi-i-inner','',[(C,"        if !self.is_in_range(&timepoint.timestamp) {","        self.insert_locked(labels, timepoint)\n    }\n\n    fn insert_locked(&self, labels: Labels, timepoint: TimePoint) -> Result<()> {\n        if !self.is_in_range(&timepoint.timestamp) {")]),
('mi-cq-two','',[(C,CQ,'''        let read = candidates
            .into_iter()
            .map(|(id, metadata)| (id, metadata, self.storage.read_time_series(id, start_time, end_time)))
            .filter(|(_, _, data)| match data {
                Err(MonolithErr::OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => false,
                Ok(points) => !points.is_empty(),
                Err(_) => true,
            })
            .map(|(id, metadata, data)| Ok(TimeSeries::from_data(id, metadata, data?)))
            .collect::<Result<Vec<TimeSeries>>>()?;
        Ok(read)
    }

''')]),
('mi-cq-helper','',[(C,CQ,'''        let mut res = Vec::with_capacity(candidates.len());
        for (id, metadata) in candidates {
            if let Some(points) = self.points(id, start_time, end_time)? {
                res.push(TimeSeries::from_data(id, metadata, points));
            }
        }
        Ok(res)
    }

    fn points(&self, id: u64, from: Timestamp, to: Timestamp) -> Result<Option<Vec<TimePoint>>> {
        match self.storage.read_time_series(id, from, to) {
            Ok(points) if points.is_empty() => Ok(None),
            Ok(points) => Ok(Some(points)),
            Err(MonolithErr::OutOfRangeErr(..)) | Err(MonolithErr::NotFoundErr) => Ok(None),
            Err(err) => Err(err),
        }
    }

''')]),
('mi-cq-helper-bad','R06',[(C,CQ,'''        let mut res = Vec::with_capacity(candidates.len());
        for (id, metadata) in candidates {
            if let Some(points) = self.points(id, start_time, end_time)? {
                res.push(TimeSeries::from_data(id, metadata, points));
            }
        }
        Ok(res)
    }

    fn points(&self, id: u64, from: Timestamp, to: Timestamp) -> Result<Option<Vec<TimePoint>>> {
        match self.storage.read_time_series(id, from, to) {
            Ok(points) if points.is_empty() => Ok(None),
            Ok(points) => Ok(Some(points)),
            Err(MonolithErr::OutOfRangeErr(..)) | Err(MonolithErr::NotFoundErr) | Err(MonolithErr::InternalErr(_)) => Ok(None),
            Err(err) => Err(err),
        }
    }

''')]),
('mi-re-helper','',[(D,REOPEN,'''        let mut res = Vec::new();
        for entry in fs::read_dir(dir)? {
            if let Some(chunk) = Self::reopen(entry?.path(), storage_builder, indexer_builder)? {
                res.push(Arc::new(chunk));
            }
        }
        res.sort();
        Ok(res)
    }

    fn reopen(
        path: PathBuf,
        storage_builder: &Box<dyn Builder<S> + Sync + Send>,
        indexer_builder: &Box<dyn Builder<I> + Sync + Send>,
    ) -> Result<Option<Chunk<S, I>>> {
        let path_str = path.clone().into_os_string().into_string().unwrap();
        let at = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
        let (start_time, end_time) = match decode_chunk_dir(path_str[at..].to_string()) {
            Ok(window) => window,
            Err(_) => return Ok(None),
        };
        let mut opts = match ChunkOpts::read_config_from_dir(&path) {
            Ok(opts) => opts,
            Err(MonolithErr::NotFoundErr) => return Ok(None),
            Err(err) => return Err(err),
        };
        opts.start_time = Some(start_time);
        opts.end_time = Some(end_time.min(get_current_timestamp()));
        let storage = storage_builder.read_from_chunk(&path.join("storage"), Some(&opts))?;
        let indexer = indexer_builder.read_from_chunk(&path.join("indexer"), Some(&opts))?;
        Ok(match (storage, indexer) {
            (Some(storage), Some(indexer)) => {
                let chunk = Chunk::new(storage, indexer, &opts);
                chunk.close();
                Some(chunk)
            }
            _ => None,
        })
    }

''')]),
('mi-re-filename','',[(D,'''            let path_str = entry?.path().into_os_string().into_string().unwrap();
            let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
            let dir_name = path_str[_slash..].to_string();
''','''            let entry = entry?;
            let path_str = entry.path().display().to_string();
            let dir_name = entry.file_name().to_string_lossy().to_string();
''')]),
('mi-sv-split','',[(S,PROC,SPLIT+'''
    fn _answer(server: &MonolithServer<S, I>, request: &mut Request) -> Result<Option<Vec<u8>>> {
        let mut content = Vec::new();
        request.as_reader().read_to_end(&mut content)?;
        let content = snap::raw::Decoder::new()
            .decompress_vec(&content)
            .map_err(|err| MonolithErr::InternalErr(err.to_string()))?;
        let url = request.url().to_string();
        if url == server.read_path {
            let mut read_req = ReadRequest::new();
            read_req.merge_from_bytes(&content)?;
            if read_req.compute_size() == 0 {
                return Err(MonolithErr::InternalErr("empty".to_string()));
            }
            let bytes = server.query(read_req)?.write_to_bytes()?;
            let out = snap::raw::Encoder::new().compress_vec(&bytes).unwrap();
            return Ok(Some(out));
        }
        if url == server.write_path {
            let mut write_req = WriteRequest::new();
            write_req.merge_from_bytes(&content)?;
            server.write(write_req)?;
            return Ok(Some(Vec::new()));
        }
        Ok(None)
    }

''')]),
]
