D='src/db.rs'; CK='src/chunk/chunk.rs'; SV='src/server.rs'; SI='src/indexer/sled_indexer.rs'; SS='src/storage/sled_storage.rs'; SC='src/storage/common.rs'; U='src/common/utils.rs'; CM='src/common/mod.rs'; LB='src/common/label.rs'; TP='src/common/time_point.rs'; TS='src/common/time_series.rs'
def cut(p,a,b):
    s=open('/repo/'+p).read(); i=s.index(a); return s[i:s.index(b,i)]
INS=cut(CK,"        let id = self.indexer.get_series_id_by_labels","        Ok(())\n    }\n\n    pub fn query")
INR=cut(CK,"        return self.start_time <= *timestamp","    }\n}\n\nimpl<S, I> PartialEq")
CQ=cut(CK,"        let mut res = Vec::new();\n        for (id, metadata)","    }\n\n    pub fn is_with_range")
OV=cut(U,"    return !(start_time_1 >","}\n\npub fn get_current")
ENC=cut(U,"        let mut res = 0u128;"[4:],"}\n\npub fn decode_chunk_dir")
DEC=cut(U,"    let decimal = u128::from_str_radix","}\n\n/// Given a list")
GFD=cut(U,"    let file = Option::transpose(","}\n\n#[cfg(test)]")
SWAP=cut(D,"        info!(\"Chunk swap, new chunk","    }\n}\n\n#[cfg(test)]")
RX=cut(D,"        let mut res = Vec::new();\n        for entry in fs::read_dir","    }\n\n    /// Write time points with same")
DQ=cut(D,"        let mut res = HashMap::<Labels","    }\n\n    fn swap(")
WTP=cut(D,"        let _c = &self.current_chuck.read().unwrap();\n        let (start","    pub fn write_time_point(")
SQ=cut(SV,"        Ok(ReadResponse {\n","    }\n\n    pub fn write(&self")
SW=cut(SV,"        for time_series in write_rq","    }\n}\n\nimpl<'a, S, I> Clone")
PR=cut(SV,"        let mut content = Vec::new();","    }\n\n    pub fn query(&self")
GSB=cut(SS,"        match tree.get(key_name)? {","    }\n}\n\nimpl Storage for")
RTS=cut(SS,"        let series = self.get_series_by_id","    }\n}\n\nimpl HasTypeName")
WSP=cut(SS,"        let mut value = KvStorageProcessor::encode_time_point","        Ok(())\n    }\n\n    fn read_time_series")
ENCP=cut(SS,"        let timestamp_bytes = timestamp.to_be_bytes();","    }\n}\n\nimpl Decoder")
DECP=cut(SS,"        if raw.len() != 16","    }\n}\n\npub struct SledStorageBuilder")
TRIM=cut(SC,"        Ok(series\n","    }\n}\n\npub trait Encoder")
GID=cut(SI,"        let key = KvIndexerProcessor::encode_label(label);\n        let value","    }\n}\n\nimpl HasTypeName")
META=cut(SI,"        let ids = self.get_series_id_contains_labels(labels)?;","    }\n\n    fn get_series_id_contains_labels")
CONT=cut(SI,"        let mut ts_vec = Vec::new();","    }\n\n    fn get_series_id_by_labels")
LEQ=cut(LB,"        if self.len() != other.len()","    }\n}\n\nimpl Labels {")
PRE='''        let mut content = Vec::new();
        if let Err(err) = request.as_reader().read_to_end(&mut content) {
            error!("Cannot read request body, {}", err);
            request.respond(Response::empty(500));
            return;
        }
'''
M=[
('m3-ins-break','',[(CK,INS,'''        let id = loop {
            if let Some(id) = self.indexer.get_series_id_by_labels(labels.clone())? {
                break id;
            }
            let id = self.id_generator.next();
            self.indexer.create_index(labels, id)?;
            break id;
        };
        self.storage.write_time_point(id, timepoint.timestamp, timepoint.value)?;

''')]),
('m3-ins-maporelse','',[(CK,INS,'''        let found = self.indexer.get_series_id_by_labels(labels.clone())?;
        let id = found.map_or_else(
            || {
                let new_id = self.id_generator.next();
                self.indexer.create_index(labels.clone(), new_id).map(|_| new_id)
            },
            Ok,
        )?;
        self.storage.write_time_point(id, timepoint.timestamp, timepoint.value)?;

''')]),
('m3-ins-letelse','',[(CK,INS,'''        let series = self.indexer.get_series_id_by_labels(labels.clone())?;
        let Some(id) = series else {
            let new_id = self.id_generator.next();
            self.indexer.create_index(labels, new_id)?;
            return self.storage.write_time_point(new_id, timepoint.timestamp, timepoint.value);
        };
        self.storage.write_time_point(id, timepoint.timestamp, timepoint.value)?;

''')]),
('m3-ins-recheck-bad','W04',[(CK,INS,'''        let id = self.id_generator.next();
        let id = match self.indexer.create_index(labels.clone(), id) {
            Ok(_) => id,
            Err(_) => self.indexer.get_series_id_by_labels(labels.clone())?.unwrap_or(id),
        };
        self.storage.write_time_point(id, timepoint.timestamp, timepoint.value)?;

''')]),
('m3-inr-contains','',[(CK,INR,'''        (self.start_time..=self.end_time).contains(timestamp)
''')]),
('m3-inr-match','',[(CK,INR,'''        match (self.start_time.cmp(timestamp), timestamp.cmp(&self.end_time)) {
            (std::cmp::Ordering::Greater, _) | (_, std::cmp::Ordering::Greater) => false,
            _ => true,
        }
''')]),
('m3-inr-not','',[(CK,INR,'''        !(*timestamp < self.start_time || *timestamp > self.end_time)
''')]),
('m3-inr-half-bad','W03',[(CK,INR,'''        (self.start_time..self.end_time).contains(timestamp)
''')]),
('m3-ov-sym','',[(U,OV,'''    let first_before_second_ends = start_time_1 <= end_time_2;
    let second_before_first_ends = start_time_2 <= end_time_1;
    first_before_second_ends && second_before_first_ends
''')]),
('m3-ov-ifs','',[(U,OV,'''    if end_time_1 < start_time_2 {
        return false;
    }
    if end_time_2 < start_time_1 {
        return false;
    }
    true
''')]),
('m3-ov-inside-bad','R05',[(U,OV,'''    (start_time_1 <= start_time_2 && start_time_2 <= end_time_1)
        || (start_time_1 <= end_time_2 && end_time_2 <= end_time_1)
''')]),
('m3-cq-labelled','',[(CK,CQ,'''        let mut res = vec![];
        'series: for (id, metadata) in candidates.into_iter() {
            let points = match self.storage.read_time_series(id, start_time, end_time) {
                Ok(points) => points,
                Err(MonolithErr::OutOfRangeErr(..)) => continue 'series,
                Err(MonolithErr::NotFoundErr) => continue 'series,
                Err(other) => return Err(other),
            };
            if !points.is_empty() {
                res.push(TimeSeries::from_data(id, metadata, points));
            }
        }
        Ok(res)
''')]),
('m3-cq-read','',[(CK,CQ,'''        let read = |id| match self.storage.read_time_series(id, start_time, end_time) {
            Err(MonolithErr::OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => Ok(Vec::new()),
            other => other,
        };
        let mut res = Vec::with_capacity(candidates.len());
        for (id, metadata) in candidates {
            let data = read(id)?;
            if data.is_empty() {
                continue;
            }
            res.push(TimeSeries::from_data(id, metadata, data))
        }
        Ok(res)
''')]),
('m3-cq-resultvec','',[(CK,CQ,'''        let series: Result<Vec<Option<TimeSeries>>> = candidates
            .into_iter()
            .map(|(id, metadata)| match self.storage.read_time_series(id, start_time, end_time) {
                Ok(ref data) if data.is_empty() => Ok(None),
                Ok(data) => Ok(Some(TimeSeries::from_data(id, metadata, data))),
                Err(MonolithErr::OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => Ok(None),
                Err(err) => Err(err),
            })
            .collect();
        Ok(series?.into_iter().flatten().collect())
''')]),
('m3-cq-ok-bad','R06',[(CK,CQ,'''        Ok(candidates
            .into_iter()
            .filter_map(|(id, metadata)| {
                let data = self.storage.read_time_series(id, start_time, end_time).ok()?;
                if data.is_empty() {
                    return None;
                }
                Some(TimeSeries::from_data(id, metadata, data))
            })
            .collect())
''')]),
('m3-enc-shift','',[(U,ENC,'''    let window = u128::from(start_time) << 64 | u128::from(end_time);
    format!("{:x}", window)
''')]),
('m3-enc-bytes','',[(U,ENC,'''    let mut bytes = [0u8; 16];
    bytes[..8].copy_from_slice(&start_time.to_be_bytes());
    bytes[8..].copy_from_slice(&end_time.to_be_bytes());
    format!("{:x}", u128::from_be_bytes(bytes))
''')]),
('m3-enc-two','',[(U,ENC,'''    if start_time == 0 {
        return format!("{:x}", end_time);
    }
    format!("{:x}{:016x}", start_time, end_time)
''')]),
('m3-enc-two-bad','D02',[(U,ENC,'''    if start_time == 0 {
        return format!("{:x}", end_time);
    }
    format!("{:x}{:x}", start_time, end_time)
''')]),
('m3-enc-mul','',[(U,ENC,'''    let base = u64::max_value() as u128 + 1;
    let window = start_time as u128 * base + end_time as u128;
    format!("{:x}", window)
''')]),
('m3-dec-casts','',[(U,DEC,'''    let window = u128::from_str_radix(&dir_name, 16)?;
    Ok(((window >> 64) as Timestamp, window as Timestamp))
''')]),
('m3-dec-bytes','',[(U,DEC,'''    let bytes = u128::from_str_radix(&dir_name, 16)?.to_be_bytes();
    let (mut start, mut end) = ([0u8; 8], [0u8; 8]);
    start.copy_from_slice(&bytes[..8]);
    end.copy_from_slice(&bytes[8..]);
    Ok((u64::from_be_bytes(start), u64::from_be_bytes(end)))
''')]),
('m3-dec-div','',[(U,DEC,'''    let base = 1u128 << 64;
    u128::from_str_radix(dir_name.as_str(), 16)
        .map(|window| ((window / base) as u64, (window % base) as u64))
        .map_err(MonolithErr::from)
''')]),
('m3-gfd-loop','',[(U,GFD,'''    for entry in fs::read_dir(base_dir)? {
        if let Ok(entry) = entry {
            if entry.file_name().into_string().unwrap() == filename {
                return Ok(Some(File::open(entry.path())?));
            }
        }
    }
    Ok(None)
''')]),
('m3-swap-fn','',[(D,SWAP,'''        info!("Chunk swap, new chunk with start time {}", start_time);
        let end_time = start_time + self.options.chunk_size.as_millis() as Timestamp;
        let fresh = self.open_window(start_time, end_time)?;
        let mut current = self.current_chuck.write().unwrap();
        let stale = std::mem::replace(&mut *current, fresh);
        stale.close();
        self.secondary_chunks.write().unwrap().push(stale);
        Ok(())
    }

    fn open_window(&self, start_time: Timestamp, end_time: Timestamp) -> Result<Arc<Chunk<S, I>>> {
        let opts = ChunkOpts {
            start_time: Some(start_time),
            end_time: Some(end_time),
            ..ChunkOpts::default()
        };
        let dir = self.options.base_dir.join(encode_chunk_dir(start_time, end_time));
        self.storage_builder.write_to_chunk(&dir)?;
        self.indexer_builder.write_to_chunk(&dir)?;
        opts.write_config_to_dir(&dir).map_err(|err| {
            error!("Cannot create metadata file for chunk, {}", err);
            MonolithErr::InternalErr("Cannot create metadata file for chunk".to_string())
        })?;
        let path = dir.display().to_string();
        let storage = self.storage_builder.build(path.clone(), Some(&opts), Some(&self.options))?;
        let indexer = self.indexer_builder.build(path, Some(&opts), Some(&self.options))?;
        Ok(Arc::new(Chunk::new(storage, indexer, &opts)))
''')]),
('m3-swap-fn-bad','D06',[(D,SWAP,'''        info!("Chunk swap, new chunk with start time {}", start_time);
        let end_time = start_time + self.options.chunk_size.as_millis() as Timestamp;
        let fresh = self.open_window(start_time, end_time)?;
        let mut current = self.current_chuck.write().unwrap();
        let stale = std::mem::replace(&mut *current, fresh);
        stale.close();
        let mut old = self.secondary_chunks.write().unwrap();
        if !old.contains(&stale) && stale.start_end_time().1 < start_time {
            old.push(stale);
        }
        Ok(())
    }

    fn open_window(&self, start_time: Timestamp, end_time: Timestamp) -> Result<Arc<Chunk<S, I>>> {
        let opts = ChunkOpts {
            start_time: Some(start_time),
            end_time: Some(end_time),
            ..ChunkOpts::default()
        };
        let dir = self.options.base_dir.join(encode_chunk_dir(start_time, end_time));
        self.storage_builder.write_to_chunk(&dir)?;
        self.indexer_builder.write_to_chunk(&dir)?;
        opts.write_config_to_dir(&dir).map_err(|err| {
            error!("Cannot create metadata file for chunk, {}", err);
            MonolithErr::InternalErr("Cannot create metadata file for chunk".to_string())
        })?;
        let path = dir.display().to_string();
        let storage = self.storage_builder.build(path.clone(), Some(&opts), Some(&self.options))?;
        let indexer = self.indexer_builder.build(path, Some(&opts), Some(&self.options))?;
        Ok(Arc::new(Chunk::new(storage, indexer, &opts)))
''')]),
('m3-rx-letelse','',[(D,RX,'''        let now = get_current_timestamp();
        let mut res = vec![];
        for entry in fs::read_dir(dir)? {
            let path = entry?.path();
            let Some(name) = path.file_name().and_then(|name| name.to_str()) else {
                continue;
            };
            let Ok((start_time, end_time)) = decode_chunk_dir(name.to_string()) else {
                continue;
            };
            let mut opts = match ChunkOpts::read_config_from_dir(&path) {
                Ok(opts) => opts,
                Err(MonolithErr::NotFoundErr) => continue,
                Err(err) => return Err(err),
            };
            opts.start_time = Some(start_time);
            opts.end_time = Some(end_time.min(now));
            let storage = storage_builder.read_from_chunk(&path.join("storage"), Some(&opts))?;
            let indexer = indexer_builder.read_from_chunk(&path.join("indexer"), Some(&opts))?;
            if let (Some(storage), Some(indexer)) = (storage, indexer) {
                let chunk = Chunk::new(storage, indexer, &opts);
                chunk.close();
                res.push(Arc::new(chunk));
            }
        }
        res.sort_by_key(|chunk: &Arc<Chunk<S, I>>| chunk.start_end_time().0);
        Ok(res)
''')]),
('m3-rx-iter','',[(D,RX,'''        let mut res = fs::read_dir(dir)?
            .map(|entry| Ok(entry?.path()))
            .map(|path: Result<PathBuf>| {
                let path = path?;
                let name = path.file_name().unwrap().to_string_lossy().into_owned();
                let (start_time, end_time) = match decode_chunk_dir(name) {
                    Ok(window) => window,
                    Err(_) => return Ok(None),
                };
                let mut opts = match ChunkOpts::read_config_from_dir(&path) {
                    Err(MonolithErr::NotFoundErr) => return Ok(None),
                    opts => opts?,
                };
                opts.start_time = Some(start_time);
                opts.end_time = Some(std::cmp::min(end_time, get_current_timestamp()));
                let storage = storage_builder.read_from_chunk(&path.join("storage"), Some(&opts))?;
                let indexer = indexer_builder.read_from_chunk(&path.join("indexer"), Some(&opts))?;
                Ok(storage.and_then(|storage| indexer.map(|indexer| {
                    let chunk = Chunk::new(storage, indexer, &opts);
                    chunk.close();
                    Arc::new(chunk)
                })))
            })
            .filter_map(Result::transpose)
            .collect::<Result<Vec<_>>>()?;
        res.sort();
        Ok(res)
''')]),
('m3-rx-iter-bad','D03',[(D,RX,'''        let mut res = fs::read_dir(dir)?
            .filter_map(|entry| entry.ok())
            .map(|entry| entry.path())
            .map(|path| {
                let name = path.file_name().unwrap().to_string_lossy().into_owned();
                let (start_time, end_time) = match decode_chunk_dir(name) {
                    Ok(window) => window,
                    Err(_) => return Ok(None),
                };
                let mut opts = match ChunkOpts::read_config_from_dir(&path) {
                    Err(MonolithErr::NotFoundErr) => return Ok(None),
                    opts => opts?,
                };
                opts.start_time = Some(start_time);
                opts.end_time = Some(std::cmp::min(end_time, get_current_timestamp()));
                let storage = storage_builder.read_from_chunk(&path.join("storage"), Some(&opts))?;
                let indexer = indexer_builder.read_from_chunk(&path.join("indexer"), Some(&opts))?;
                Ok(storage.and_then(|storage| indexer.map(|indexer| {
                    let chunk = Chunk::new(storage, indexer, &opts);
                    chunk.close();
                    Arc::new(chunk)
                })))
            })
            .filter_map(Result::transpose)
            .take_while(|chunk| chunk.is_ok())
            .collect::<Result<Vec<_>>>()?;
        res.sort();
        Ok(res)
''')]),
('m3-dq-entry','',[(D,DQ,'''        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        let current = self.current_chuck.read().unwrap();
        if current.is_with_range(start_time, end_time) {
            for series in current.query(labels.clone(), start_time, end_time)? {
                res.insert(
                    series.meta_data().clone(),
                    series.time_points().iter().rev().cloned().collect(),
                );
            }
        }
        let older = self.secondary_chunks.read().unwrap();
        for chunk in older.iter().rev().filter(|chunk| chunk.is_with_range(start_time, end_time)) {
            for series in chunk.query(labels.clone(), start_time, end_time)? {
                res.entry(series.meta_data().clone())
                    .or_insert_with(Vec::new)
                    .extend(series.time_points().iter().rev().cloned());
            }
        }
        Ok(res
            .into_iter()
            .map(|(labels, mut points)| {
                points.reverse();
                (labels, points)
            })
            .collect())
''')]),
('m3-dq-chain','',[(D,DQ,'''        let current = self.current_chuck.read().unwrap();
        let older = self.secondary_chunks.read().unwrap();
        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        for chunk in older.iter().chain(std::iter::once(&*current)) {
            if !chunk.is_with_range(start_time, end_time) {
                continue;
            }
            for series in chunk.query(labels.clone(), start_time, end_time)? {
                let points = res.entry(series.meta_data().clone()).or_default();
                points.extend_from_slice(series.time_points());
            }
        }
        Ok(res.into_iter().collect())
''')]),
('m3-dq-chain-bad','R05',[(D,DQ,'''        let current = self.current_chuck.read().unwrap();
        let older = self.secondary_chunks.read().unwrap();
        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        for chunk in std::iter::once(&*current).chain(older.iter()) {
            if !chunk.is_with_range(start_time, end_time) {
                continue;
            }
            for series in chunk.query(labels.clone(), start_time, end_time)? {
                let points = res.entry(series.meta_data().clone()).or_default();
                points.extend_from_slice(series.time_points());
            }
        }
        Ok(res.into_iter().collect())
''')]),
('m3-dq-getmut','',[(D,DQ,'''        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
        let current = self.current_chuck.read().unwrap();
        let chunks = self.secondary_chunks.read().unwrap();
        let mut in_range: Vec<&Arc<Chunk<S, I>>> =
            chunks.iter().filter(|chunk| chunk.is_with_range(start_time, end_time)).collect();
        if current.is_with_range(start_time, end_time) {
            in_range.push(&current);
        }
        for chunk in in_range {
            for series in chunk.query(labels.clone(), start_time, end_time)? {
                if let Some(points) = res.get_mut(series.meta_data()) {
                    points.extend(series.time_points().iter().cloned());
                } else {
                    res.insert(series.meta_data().clone(), series.time_points().to_vec());
                }
            }
        }
        Ok(res.into_iter().collect())
''')]),
('m3-wtp-for','',[(D,WTP,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let mut failed = 0usize;
        for tp in timepoints {
            if tp.timestamp == 0 || !(start_time..=end_time).contains(&tp.timestamp) {
                continue;
            }
            failed += current.insert(labels.clone(), tp).is_err() as usize;
        }
        match failed {
            0 => Ok(()),
            _ => {
                error!("{} time point failed to insert", failed);
                Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
            }
        }
    }

''')]),
('m3-wtp-tryfold','',[(D,WTP,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let failed = timepoints
            .into_iter()
            .filter(|tp| tp.timestamp != 0)
            .filter(|tp| start_time <= tp.timestamp && tp.timestamp <= end_time)
            .map(|tp| current.insert(labels.clone(), tp))
            .filter_map(|res| res.err())
            .count();
        if failed > 0 {
            error!("{} time point failed to insert", failed);
            Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
        } else {
            Ok(())
        }
    }

''')]),
('m3-wtp-one-bad','W01',[(D,WTP,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let failed = timepoints
            .into_iter()
            .filter(|tp| tp.timestamp != 0)
            .filter(|tp| start_time <= tp.timestamp && tp.timestamp <= end_time)
            .map(|tp| current.insert(labels.clone(), tp))
            .filter_map(|res| res.err())
            .count();
        if failed > 1 {
            error!("{} time point failed to insert", failed);
            Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
        } else {
            Ok(())
        }
    }

''')]),
('m3-wtp-lazy-bad','W01',[(D,WTP,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let mut results = timepoints
            .into_iter()
            .filter(|tp| tp.timestamp != 0)
            .filter(|tp| start_time <= tp.timestamp && tp.timestamp <= end_time)
            .map(|tp| current.insert(labels.clone(), tp));
        if let Some(Err(err)) = results.next() {
            return Err(err);
        }
        Ok(())
    }

''')]),
('m3-sq-loop','',[(SV,SQ,'''        let mut results = Vec::new();
        for q in read_rq.queries.iter() {
            if !q.matchers.iter().all(|m| m.field_type == LabelMatcher_Type::EQ) {
                return Err(MonolithErr::InternalErr(
                    "only equality matchers are supported".to_string(),
                ));
            }
            let labels = Labels::from_vec(q.matchers.iter().map(Label::from_label_matcher).collect());
            let start = std::cmp::max(q.start_timestamp_ms, 0) as Timestamp;
            let end = std::cmp::max(q.end_timestamp_ms, 0) as Timestamp;
            let mut result = QueryResult::new();
            for pair in self.db.query(labels, start, end)?.iter() {
                result.timeseries.push(crate::proto::TimeSeries::from(pair));
            }
            results.push(result);
        }
        let mut response = ReadResponse::new();
        response.set_results(RepeatedField::from_vec(results));
        Ok(response)
''')]),
('m3-sq-tryfrom','',[(SV,SQ,'''        let bound = |ms: i64| if ms < 0 { 0 } else { ms as Timestamp };
        let run = |q: &crate::proto::Query| -> Result<QueryResult> {
            for m in q.matchers.iter() {
                match m.field_type {
                    LabelMatcher_Type::EQ => {}
                    _ => {
                        return Err(MonolithErr::InternalErr(
                            "only equality matchers are supported".to_string(),
                        ))
                    }
                }
            }
            let mut labels = Labels::new();
            for m in q.matchers.iter() {
                labels.add(Label::from_key_value(&m.name, &m.value));
            }
            let series = self.db.query(labels, bound(q.start_timestamp_ms), bound(q.end_timestamp_ms))?;
            let mut result = QueryResult::new();
            result.set_timeseries(series.iter().map(crate::proto::TimeSeries::from).collect());
            Ok(result)
        };
        let results = read_rq.queries.iter().map(run).collect::<Result<Vec<_>>>()?;
        Ok(ReadResponse {
            results: results.into(),
            ..Default::default()
        })
''')]),
('m3-sq-break-bad','S03',[(SV,SQ,'''        let mut results = Vec::new();
        for q in read_rq.queries.iter() {
            if !q.matchers.iter().all(|m| m.field_type == LabelMatcher_Type::EQ) {
                return Err(MonolithErr::InternalErr(
                    "only equality matchers are supported".to_string(),
                ));
            }
            let labels = Labels::from_vec(q.matchers.iter().map(Label::from_label_matcher).collect());
            let start = std::cmp::max(q.start_timestamp_ms, 0) as Timestamp;
            let end = std::cmp::max(q.end_timestamp_ms, 0) as Timestamp;
            if start > end {
                continue;
            }
            let mut result = QueryResult::new();
            for pair in self.db.query(labels, start, end)?.iter() {
                result.timeseries.push(crate::proto::TimeSeries::from(pair));
            }
            results.push(result);
        }
        let mut response = ReadResponse::new();
        response.set_results(RepeatedField::from_vec(results));
        Ok(response)
''')]),
('m3-sw-into','',[(SV,SW,'''        let mut write_rq = write_rq;
        for time_series in write_rq.take_timeseries().into_iter() {
            let TimeSeriesParts { labels, points } = split(&time_series);
            self.db.write_time_points(labels, points)?;
        }
        Ok(())
'''),(SV,"impl<'a, S, I> Clone for",'''struct TimeSeriesParts {
    labels: Labels,
    points: Vec<crate::common::time_point::TimePoint>,
}

fn split(series: &crate::proto::TimeSeries) -> TimeSeriesParts {
    TimeSeriesParts {
        labels: Labels::from_vec(series.labels.iter().map(Label::from).collect()),
        points: series.samples.iter().map(|sample| sample.into()).collect(),
    }
}

impl<'a, S, I> Clone for''')]),
('m3-pr-closure','',[(SV,PR,'''        let status = MonolithServer::answer(&server, &mut request);
        match status {
            Ok(Some(body)) => {
                request.respond(Response::from_data(body));
            }
            Ok(None) => {
                request.respond(Response::empty(200));
            }
            Err(code) => {
                request.respond(Response::empty(code));
            }
        }
    }

    fn answer(server: &MonolithServer<S, I>, request: &mut Request) -> std::result::Result<Option<Vec<u8>>, u16> {
        let mut body = Vec::new();
        request.as_reader().read_to_end(&mut body).map_err(|_| 500u16)?;
        let raw = snap::raw::Decoder::new().decompress_vec(&body).map_err(|_| 500u16)?;
        if request.url() == server.read_path {
            let req: ReadRequest = protobuf::parse_from_bytes(&raw).map_err(|_| 500u16)?;
            if req.compute_size() == 0 {
                error!("Empty request");
                return Err(500);
            }
            let res = server.query(req).map_err(|err| {
                error!("Error when query against db, {}", err);
                500u16
            })?;
            let bytes = res.write_to_bytes().map_err(|_| 500u16)?;
            let packed = snap::raw::Encoder::new().compress_vec(&bytes).map_err(|_| 500u16)?;
            Ok(Some(packed))
        } else if request.url() == server.write_path {
            let req: WriteRequest = protobuf::parse_from_bytes(&raw).map_err(|_| 500u16)?;
            server.write(req).map(|_| None).map_err(|err| {
                error!("Error when write into db, {}", err);
                500u16
            })
        } else {
            Err(404)
        }
''')]),
('m3-pr-closure-bad','S01',[(SV,PR,'''        let status = MonolithServer::answer(&server, &mut request);
        match status {
            Ok(body) if !body.is_empty() => {
                request.respond(Response::from_data(body));
            }
            Ok(_) => {
                request.respond(Response::empty(200));
            }
            Err(code) if code >= 500 => {
                request.respond(Response::empty(code));
            }
            Err(_) => {}
        }
    }

    fn answer(server: &MonolithServer<S, I>, request: &mut Request) -> std::result::Result<Vec<u8>, u16> {
        let mut body = Vec::new();
        request.as_reader().read_to_end(&mut body).map_err(|_| 500u16)?;
        let raw = snap::raw::Decoder::new().decompress_vec(&body).map_err(|_| 500u16)?;
        if request.url() == server.read_path {
            let req: ReadRequest = protobuf::parse_from_bytes(&raw).map_err(|_| 500u16)?;
            if req.compute_size() == 0 {
                error!("Empty request");
                return Err(500);
            }
            let res = server.query(req).map_err(|err| {
                error!("Error when query against db, {}", err);
                500u16
            })?;
            let bytes = res.write_to_bytes().map_err(|_| 500u16)?;
            let packed = snap::raw::Encoder::new().compress_vec(&bytes).map_err(|_| 500u16)?;
            Ok(packed)
        } else if request.url() == server.write_path {
            let req: WriteRequest = protobuf::parse_from_bytes(&raw).map_err(|_| 500u16)?;
            server.write(req).map(|_| Vec::new()).map_err(|err| {
                error!("Error when write into db, {}", err);
                500u16
            })
        } else {
            Err(404)
        }
''')]),
('m3-gsb-exact','',[(SS,GSB,'''        let val = tree.get(key_name)?.ok_or(NotFoundErr)?;
        let width = std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
        let mut res = val
            .chunks(width)
            .map(KvStorageProcessor::decode_time_point)
            .collect::<Result<Vec<TimePoint>>>()?;
        res.sort_by(|a, b| a.timestamp.cmp(&b.timestamp));
        Ok(Some(res))
''')]),
('m3-gsb-index','',[(SS,GSB,'''        let val = match tree.get(key_name)? {
            Some(val) => val,
            None => return Err(NotFoundErr),
        };
        let bytes: &[u8] = val.as_ref();
        let width = 16;
        let mut points = Vec::with_capacity(bytes.len() / width);
        let mut rest = bytes;
        while rest.len() > 0 {
            let (head, tail) = rest.split_at(std::cmp::min(width, rest.len()));
            points.push(KvStorageProcessor::decode_time_point(head)?);
            rest = tail;
        }
        points.sort();
        Ok(Some(points))
''')]),
('m3-gsb-btree','',[(SS,GSB,'''        let val = tree.get(key_name)?.ok_or(NotFoundErr)?;
        let mut by_time: std::collections::BTreeMap<Timestamp, Vec<TimePoint>> = Default::default();
        for raw in val.chunks(16) {
            let point = KvStorageProcessor::decode_time_point(raw)?;
            by_time.entry(point.timestamp).or_default().push(point);
        }
        Ok(Some(by_time.into_iter().flat_map(|(_, points)| points).collect()))
''')]),
('m3-gsb-btree-bad','',[(SS,GSB,'''        let val = tree.get(key_name)?.ok_or(NotFoundErr)?;
        let mut by_time: std::collections::BTreeMap<Timestamp, TimePoint> = Default::default();
        for raw in val.chunks(16) {
            let point = KvStorageProcessor::decode_time_point(raw)?;
            by_time.insert(point.timestamp, point);
        }
        Ok(Some(by_time.into_iter().map(|(_, point)| point).collect()))
''')]),
('m3-rts-let','',[(SS,RTS,'''        let series = match self.get_series_by_id(time_series_id)? {
            Some(series) => series,
            None => return Err(NotFoundErr),
        };
        let (first, last) = (series[0].timestamp, series[series.len() - 1].timestamp);
        if first > end_time || last < start_time {
            return Err(OutOfRangeErr(first, last));
        }
        Self::trim_time_series(series, start_time, end_time)
''')]),
('m3-rts-iflet','',[(SS,RTS,'''        let series = self.get_series_by_id(time_series_id)?.ok_or(NotFoundErr)?;
        if let (Some(first), Some(last)) = (series.first(), series.last()) {
            if first.timestamp > end_time || last.timestamp < start_time {
                return Err(OutOfRangeErr(first.timestamp, last.timestamp));
            }
        }
        SledStorage::trim_time_series(series, start_time, end_time)
''')]),
('m3-wsp-concat','',[(SS,WSP,'''        let encoded = KvStorageProcessor::encode_time_point(timestamp, value)?;
        let bytes = match tree.get(&key_name)? {
            Some(current) => [&current[..], &encoded[..]].concat(),
            None => encoded,
        };
        tree.set(&key_name, bytes)?;
''')]),
('m3-wsp-map','',[(SS,WSP,'''        let encoded = KvStorageProcessor::encode_time_point(timestamp, value)?;
        let mut bytes = tree.get(&key_name)?.map_or_else(Vec::new, |current| current.to_vec());
        bytes.extend(encoded);
        tree.set(key_name, bytes).map(|_| ())?;
''')]),
('m3-wsp-chain','',[(SS,WSP,'''        let encoded = KvStorageProcessor::encode_time_point(timestamp, value)?;
        let current = tree.get(&key_name)?;
        let bytes: Vec<u8> = current.iter().flat_map(|val| val.iter().copied()).chain(encoded).collect();
        tree.set(key_name, bytes)?;
''')]),
('m3-wsp-trunc-bad','W02',[(SS,WSP,'''        let encoded = KvStorageProcessor::encode_time_point(timestamp, value)?;
        let mut bytes = tree.get(&key_name)?.map_or_else(Vec::new, |current| current.to_vec());
        if bytes.ends_with(&encoded) {
            return Ok(());
        }
        bytes.extend(encoded);
        tree.set(key_name, bytes).map(|_| ())?;
''')]),
('m3-encp-concat','',[(SS,ENCP,'''        Ok([timestamp.to_be_bytes(), value.to_be_bytes()].concat())
''')]),
('m3-encp-bits','',[(SS,ENCP,'''        let mut res = Vec::with_capacity(16);
        res.extend_from_slice(&timestamp.to_be_bytes());
        res.extend_from_slice(&value.to_bits().to_be_bytes());
        Ok(res)
''')]),
('m3-encp-array','',[(SS,ENCP,'''        let mut raw = [0u8; 16];
        raw[..8].copy_from_slice(&timestamp.to_be_bytes());
        raw[8..].copy_from_slice(&value.to_be_bytes());
        Ok(raw.to_vec())
''')]),
('m3-encp-ne-bad','W02',[(SS,ENCP,'''        let mut raw = [0u8; 16];
        raw[..8].copy_from_slice(&timestamp.to_be_bytes());
        raw[8..].copy_from_slice(&value.to_le_bytes());
        Ok(raw.to_vec())
''')]),
('m3-decp-u128','',[(SS,DECP,'''        let raw: [u8; 16] = raw.try_into().map_err(|_| {
            MonolithErr::InternalErr("Wrong number of bytes in input".to_string())
        })?;
        let mut timestamp = [0u8; 8];
        let mut value = [0u8; 8];
        timestamp.copy_from_slice(&raw[..8]);
        value.copy_from_slice(&raw[8..]);
        Ok(TimePoint {
            timestamp: Timestamp::from_be_bytes(timestamp),
            value: f64::from_bits(u64::from_be_bytes(value)),
        })
''')]),
('m3-decp-slices','',[(SS,DECP,'''        match (raw.get(..8), raw.get(8..16)) {
            (Some(timestamp), Some(value)) if raw.len() == 16 => Ok(TimePoint::new(
                u64::from_be_bytes(timestamp.try_into().unwrap()),
                f64::from_be_bytes(value.try_into().unwrap()),
            )),
            _ => Err(MonolithErr::InternalErr(
                "Wrong number of bytes in input".to_string(),
            )),
        }
''')]),
('m3-trim-retain','',[(SC,TRIM,'''        let mut series = series;
        series.retain(|point| (start_time..=end_time).contains(&point.timestamp));
        Ok(series)
''')]),
('m3-trim-skip','',[(SC,TRIM,'''        let mut res = Vec::with_capacity(series.len());
        for point in series {
            if point.timestamp < start_time {
                continue;
            }
            if point.timestamp <= end_time {
                res.push(point);
            }
        }
        Ok(res)
''')]),
('m3-trim-part','',[(SC,TRIM,'''        let (inside, _outside): (Vec<TimePoint>, Vec<TimePoint>) = series
            .into_iter()
            .partition(|point| !(point.timestamp < start_time || end_time < point.timestamp));
        Ok(inside)
''')]),
('m3-trim-half-bad','R01',[(SC,TRIM,'''        let mut series = series;
        series.retain(|point| (start_time..end_time).contains(&point.timestamp));
        Ok(series)
''')]),
('m3-gid-tryfold','',[(SI,GID,'''        let Some(text) = self.get(&KvIndexerProcessor::encode_label(label))? else {
            return Ok(None);
        };
        let ids = text.split(',').try_fold(Vec::new(), |mut ids, id| -> Result<_> {
            ids.push(id.parse::<TimeSeriesId>()?);
            Ok(ids)
        })?;
        Ok(Some(ids))
''')]),
('m3-gid-map','',[(SI,GID,'''        self.get(&KvIndexerProcessor::encode_label(label))?
            .map(|text| text.split(',').map(|id| Ok(id.parse()?)).collect())
            .transpose()
''')]),
('m3-gid-last-bad','R02',[(SI,GID,'''        self.get(&KvIndexerProcessor::encode_label(label))?
            .map(|text| text.rsplitn(64, ',').map(|id| Ok(id.parse()?)).collect())
            .transpose()
''')]),
('m3-meta-map','',[(SI,META,'''        self.get_series_id_contains_labels(labels)?
            .into_iter()
            .map(|id| {
                let stored = self.get(&KvIndexerProcessor::encode_time_series_id(id))?;
                stored
                    .map(|text| Ok((id, KvIndexerProcessor::decode_labels(text, false)?)))
                    .transpose()
            })
            .filter_map(|found: Result<Option<(TimeSeriesId, Labels)>>| found.transpose())
            .collect()
''')]),
('m3-meta-iflet','',[(SI,META,'''        let mut res: Vec<(TimeSeriesId, Labels)> = vec![];
        for id in self.get_series_id_contains_labels(labels)?.drain(..) {
            let key = KvIndexerProcessor::encode_time_series_id(id);
            if let Some(text) = self.get(&key)? {
                res.push((id, KvIndexerProcessor::decode_labels(text, false)?));
            }
        }
        Ok(res)
''')]),
('m3-cont-for','',[(SI,CONT,'''        let mut ts_vec = Vec::with_capacity(labels.len());
        for label in labels.vec().iter() {
            let ids = match self.get_id(label)? {
                None => return Ok(vec![]),
                Some(ids) => ids,
            };
            ts_vec.push(ids);
        }
        intersect_time_series_id_vec(ts_vec)
''')]),
('m3-cont-transpose','',[(SI,CONT,'''        let lists: Option<Vec<Vec<TimeSeriesId>>> = labels
            .vec()
            .iter()
            .map(|label| self.get_id(label))
            .collect::<Result<Option<Vec<Vec<TimeSeriesId>>>>>()?;
        match lists {
            Some(lists) => intersect_time_series_id_vec(lists),
            None => Ok(Vec::new()),
        }
'''),]),
('m3-leq-zip','',[(LB,LEQ,'''        self.0.len() == other.0.len() && self.0.iter().zip(other.0.iter()).all(|(a, b)| a == b)
''')]),
('m3-leq-slice','',[(LB,LEQ,'''        self.0[..] == other.0[..]
''')]),
('m3-leq-iter','',[(LB,LEQ,'''        self.0.iter().eq(other.0.iter())
''')]),
('m3-leq-sorted-bad','E01',[(LB,LEQ,'''        let mut mine: Vec<&Label> = self.0.iter().collect();
        let mut theirs: Vec<&Label> = other.0.iter().collect();
        mine.sort();
        theirs.sort();
        mine == theirs
''')]),
]
