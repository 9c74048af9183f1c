D='src/db.rs'; CK='src/chunk/chunk.rs'; SV='src/server.rs'; SI='src/indexer/sled_indexer.rs'; SS='src/storage/sled_storage.rs'; U='src/common/utils.rs'; CM='src/common/mod.rs'; L='src/common/label.rs'
def cut(p,a,b):
    """text of file p from the first a up to the next b (exclusive)"""
    s=open('/repo/'+p).read(); i=s.index(a); return s[i:s.index(b,i)]
INS=cut(CK,"        let id = self.indexer.get_series_id_by_labels","        Ok(())\n    }\n\n    pub fn query")
CQ=cut(CK,"        let mut res = Vec::new();\n        for (id, metadata)","    }\n\n    pub fn is_with_range")
RC=cut(CK,"        match fs::read_to_string(dir.join(CHUNK","    }\n\n    /// Write config file")
WC=cut(CK,"        // only write when start time","    }\n}\n\nimpl Default")
SWAP=cut(D,"            let mut current = self.current_chuck.write()","        }\n        Ok(())\n    }\n}\n\n#[cfg(test)]")
RX=cut(D,"        let mut res = Vec::new();\n        for entry in fs::read_dir","    }\n\n    /// Write time points with same")
MD=cut(D,"        let content = match fs::read_to_string(base","    ///Read the existing chunk in dir")
WTP=cut(D,"        let _c = &self.current_chuck.read().unwrap();\n        let (start","    pub fn write_time_point(")
SQ=cut(SV,"    pub fn query(&self","    pub fn write(&self")
SW=cut(SV,"        for time_series in write_rq","    }\n}\n\nimpl<'a, S, I> Clone")
GID=cut(SI,"        let key = KvIndexerProcessor::encode_label(label);\n        let value","    }\n}\n\nimpl HasTypeName")
GET=cut(SI,"        return match self.storage.get(key)?","    }\n\n    fn get_id")
META=cut(SI,"        let ids = self.get_series_id_contains_labels(labels)?;","    }\n\n    fn get_series_id_contains_labels")
CONT=cut(SI,"        let mut ts_vec = Vec::new();","    }\n\n    fn get_series_id_by_labels")
BYL=cut(SI,"        if let Some(val) = self\n            .storage\n            .get(KvIndexerProcessor::encode_labels(&labels, true))?","    }\n\n    fn create_index")
CI=cut(SI,"        // from label to time series ids","        // last, as it marks")
GSB=cut(SS,"        match tree.get(key_name)? {","    }\n}\n\nimpl Storage for")
RTS=cut(SS,"        let series = self.get_series_by_id","    }\n}\n\nimpl HasTypeName")
WSP=cut(SS,"        let tree: &Tree = &self.storage;\n        let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);\n        let mut value","    }\n\n    fn read_time_series")
INT=cut(U,"    type TimeSeriesIdMatrix","    }\n}\n\n/// Read file from dir")
OIB=cut(CM,"        let mut res: Vec<TimeSeriesId> = Vec::new();","    }\n}\n\npub struct IdGenerator")
M=[
('m2-ins-match','',[(CK,INS,'''        let TimePoint { timestamp, value } = timepoint;
        let id = match self.indexer.get_series_id_by_labels(labels.clone())? {
            Some(known) => known,
            None => self.register(labels)?,
        };
        self.storage.write_time_point(id, timestamp, value)?;

'''),(CK,"    pub fn is_with_range",'''    fn register(&self, labels: Labels) -> Result<u64> {
        let id = self.id_generator.next();
        self.indexer.create_index(labels, id).map(|_| id)
    }

    pub fn is_with_range''')]),
('m2-ins-andthen','',[(CK,INS,'''        self.indexer
            .get_series_id_by_labels(labels.clone())
            .and_then(|found| match found {
                Some(id) => Ok(id),
                None => {
                    let id = self.id_generator.next();
                    self.indexer.create_index(labels, id)?;
                    Ok(id)
                }
            })
            .and_then(|id| self.storage.write_time_point(id, timepoint.timestamp, timepoint.value))?;

''')]),
('m2-ins-bad','W01',[(CK,INS,'''        let id = match self.indexer.get_series_id_by_labels(labels.clone()) {
            Ok(Some(known)) => known,
            _ => {
                let id = self.id_generator.next();
                self.indexer.create_index(labels, id).and(Ok(id)).unwrap_or(id)
            }
        };
        self.storage.write_time_point(id, timepoint.timestamp, timepoint.value)?;

''')]),
('m2-cq-filtermap','',[(CK,CQ,'''        candidates
            .into_iter()
            .filter_map(|(id, metadata)| match self.storage.read_time_series(id, start_time, end_time) {
                Ok(data) if data.is_empty() => None,
                Ok(data) => Some(Ok(TimeSeries::from_data(id, metadata, data))),
                Err(MonolithErr::OutOfRangeErr(..)) | Err(MonolithErr::NotFoundErr) => None,
                Err(err) => Some(Err(err)),
            })
            .collect()
''')]),
('m2-cq-filtermap-bad','R04 R06',[(CK,CQ,'''        Ok(candidates
            .into_iter()
            .filter_map(|(id, metadata)| match self.storage.read_time_series(id, start_time, end_time) {
                Ok(data) if data.is_empty() => None,
                Ok(data) => Some(TimeSeries::from_data(id, metadata, data)),
                Err(_) => None,
            })
            .collect())
''')]),
('m2-cq-tryfold','',[(CK,CQ,'''        candidates.into_iter().try_fold(Vec::new(), |mut res, (id, metadata)| {
            match self.storage.read_time_series(id, start_time, end_time) {
                Ok(data) => {
                    if !data.is_empty() {
                        res.push(TimeSeries::from_data(id, metadata, data));
                    }
                    Ok(res)
                }
                Err(OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => Ok(res),
                Err(err) => Err(err),
            }
        })
''')]),
('m2-rc-maperr','',[(CK,RC,'''        let path = dir.join(CHUNK_METADATA_FILENAME);
        let content = fs::read_to_string(&path).map_err(|err| {
            error!("Cannot open option file {}", path.display());
            match err.kind() {
                ErrorKind::NotFound => MonolithErr::NotFoundErr,
                _ => MonolithErr::from(err),
            }
        })?;
        let opts = serde_json::from_str(&content)?;
        Ok(opts)
''')]),
('m2-wc-early','',[(CK,WC,'''        if self.start_time.is_none() || self.end_time.is_none() {
            return Ok(());
        }
        fs::create_dir_all(dir)?;
        let target = dir.join(CHUNK_METADATA_FILENAME);
        let scratch = target.with_extension("tmp");
        let mut file = File::create(&scratch)?;
        file.write_all(&serde_json::to_vec(self)?)?;
        file.sync_all()?;
        fs::rename(scratch, target)?;
        Ok(())
''')]),
('m2-cmp-order','',[(CK,'''        self.partial_cmp(other).unwrap()''','''        Ord::cmp(&self.start_time, &other.start_time)'''),(CK,'''        Some(self.start_time.cmp(&other.start_time))''','''        Some(self.cmp(other))''')]),
('m2-swap-replace','',[(D,SWAP,'''            let mut current = self.current_chuck.write().unwrap();
            let mut older = self.secondary_chunks.write().unwrap();
            let previous = std::mem::replace(&mut *current, Arc::new(chunk));
            previous.close();
            info!("The old chunk with end time {} is closed", previous.start_end_time().1);
            older.push(previous);
''')]),
('m2-swap-helper','',[(D,SWAP,'''            let mut current = self.current_chuck.write().unwrap();
            let fresh = Arc::new(chunk);
            self.retire(&current);
            *current = fresh;
'''),(D,"    fn swap(&self, start_time",'''    fn retire(&self, old: &Arc<Chunk<S, I>>) {
        old.close();
        let mut older = self.secondary_chunks.write().unwrap();
        older.push(Arc::clone(old));
    }

    fn swap(&self, start_time''')]),
('m2-swap-order-bad','D06',[(D,SWAP,'''            let mut current = self.current_chuck.write().unwrap();
            let mut older = self.secondary_chunks.write().unwrap();
            let previous = std::mem::replace(&mut *current, Arc::new(chunk));
            current.close();
            older.push(previous);
''')]),
('m2-rx-open','',[(D,RX,'''        let mut res = Vec::new();
        for entry in fs::read_dir(dir)? {
            let path = entry?.path();
            let name = path.file_name().and_then(|n| n.to_str()).unwrap_or("").to_string();
            if let Ok((start_time, end_time)) = decode_chunk_dir(name) {
                if let Some(chunk) = Self::open_chunk(&path, start_time, end_time, storage_builder, indexer_builder)? {
                    res.push(Arc::new(chunk));
                }
            }
        }
        res.sort();
        Ok(res)
    }

    fn open_chunk(
        path: &Path,
        start_time: Timestamp,
        end_time: Timestamp,
        storage_builder: &Box<dyn Builder<S> + Sync + Send>,
        indexer_builder: &Box<dyn Builder<I> + Sync + Send>,
    ) -> Result<Option<Chunk<S, I>>> {
        let mut opts = match ChunkOpts::read_config_from_dir(path) {
            Ok(opts) => opts,
            Err(MonolithErr::NotFoundErr) => return Ok(None),
            Err(err) => return Err(err),
        };
        opts.start_time = Some(start_time);
        opts.end_time = Some(std::cmp::min(end_time, get_current_timestamp()));
        let storage = storage_builder.read_from_chunk(&path.join("storage"), Some(&opts))?;
        let indexer = indexer_builder.read_from_chunk(&path.join("indexer"), Some(&opts))?;
        match (storage, indexer) {
            (Some(storage), Some(indexer)) => {
                let chunk = Chunk::new(storage, indexer, &opts);
                chunk.close();
                Ok(Some(chunk))
            }
            _ => Ok(None),
        }
''')]),
('m2-rx-open-bad','D03',[(D,RX,'''        let mut res = Vec::new();
        for entry in fs::read_dir(dir)? {
            let path = entry?.path();
            let name = path.file_name().and_then(|n| n.to_str()).unwrap_or("").to_string();
            if let Ok((start_time, end_time)) = decode_chunk_dir(name) {
                if let Ok(Some(chunk)) = Self::open_chunk(&path, start_time, end_time, storage_builder, indexer_builder) {
                    res.push(Arc::new(chunk));
                }
            }
        }
        res.sort();
        Ok(res)
    }

    fn open_chunk(
        path: &Path,
        start_time: Timestamp,
        end_time: Timestamp,
        storage_builder: &Box<dyn Builder<S> + Sync + Send>,
        indexer_builder: &Box<dyn Builder<I> + Sync + Send>,
    ) -> Result<Option<Chunk<S, I>>> {
        let mut opts = match ChunkOpts::read_config_from_dir(path) {
            Ok(opts) => opts,
            Err(MonolithErr::NotFoundErr) => return Ok(None),
            Err(err) => return Err(err),
        };
        opts.start_time = Some(start_time);
        opts.end_time = Some(end_time.min(get_current_timestamp()));
        let storage = storage_builder.read_from_chunk(&path.join("storage"), Some(&opts))?;
        let indexer = indexer_builder.read_from_chunk(&path.join("indexer"), Some(&opts))?;
        match (storage, indexer) {
            (Some(storage), Some(indexer)) => {
                let chunk = Chunk::new(storage, indexer, &opts);
                chunk.close();
                Ok(Some(chunk))
            }
            _ => Ok(None),
        }
''')]),
('m2-md-split','',[(D,MD,'''        match fs::read_to_string(base_dir.join(DB_METADATA_FILENAME)) {
            Ok(content) => {
                let found: DbMetadata = serde_json::from_str(&content)?;
                let same = found.indexer_type == db_metadata.indexer_type && found.storage_type == db_metadata.storage_type;
                if same {
                    Ok(())
                } else {
                    Err(MonolithErr::OptionErr)
                }
            }
            Err(err) => match err.kind() {
                ErrorKind::NotFound => Self::create_metadata(base_dir, db_metadata),
                _ => Err(err.into()),
            },
        }
    }

    fn create_metadata(base_dir: &Path, db_metadata: &DbMetadata) -> Result<()> {
        let target = base_dir.join(DB_METADATA_FILENAME);
        let tmp = base_dir.join(DB_METADATA_FILENAME.to_string() + ".tmp");
        let mut file = File::create(&tmp)?;
        file.write_all(serde_json::to_string(db_metadata)?.as_bytes())?;
        file.sync_all()?;
        fs::rename(tmp, target).map_err(MonolithErr::from)
    }

''')]),
('m2-wtp-loop','',[(D,WTP,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let mut failed = 0;
        for tp in timepoints {
            let in_window = (start_time..=end_time).contains(&tp.timestamp);
            if tp.timestamp == 0 || !in_window {
                continue;
            }
            if let Err(err) = current.insert(labels.clone(), tp) {
                error!("cannot insert, {}", err);
                failed += 1;
            }
        }
        match failed {
            0 => Ok(()),
            n => {
                error!("{} time point failed to insert", n);
                Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
            }
        }
    }

''')]),
('m2-wtp-count','',[(D,WTP,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let failed = timepoints
            .into_iter()
            .filter(|tp| !(tp.timestamp < start_time || tp.timestamp > end_time))
            .filter(|tp| tp.timestamp != 0)
            .filter_map(|tp| current.insert(labels.clone(), tp).err())
            .count();
        if failed > 0 {
            return Err(MonolithErr::InternalErr(format!("{} time point cannot insert", failed)));
        }
        Ok(())
    }

''')]),
('m2-wtp-partition','',[(D,WTP,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let (inside, _outside): (Vec<TimePoint>, Vec<TimePoint>) = timepoints
            .into_iter()
            .partition(|tp| tp.timestamp != 0 && tp.timestamp >= start_time && tp.timestamp <= end_time);
        let mut ok = true;
        for tp in inside {
            ok &= current.insert(labels.clone(), tp).is_ok();
        }
        if ok {
            Ok(())
        } else {
            Err(MonolithErr::InternalErr("multiple time point cannot insert".to_string()))
        }
    }

''')]),
('m2-wtp-any-bad','W01',[(D,WTP,'''        let current = self.current_chuck.read().unwrap();
        let (start_time, end_time) = current.start_end_time();
        let failed = timepoints
            .into_iter()
            .filter(|tp| tp.timestamp != 0 && tp.timestamp >= start_time && tp.timestamp <= end_time)
            .any(|tp| current.insert(labels.clone(), tp).is_ok());
        if !failed {
            return Err(MonolithErr::InternalErr("no time point could be inserted".to_string()));
        }
        Ok(())
    }

''')]),
('m2-sq-loops','',[(SV,SQ,'''    pub fn query(&self, read_rq: ReadRequest) -> Result<ReadResponse> {
        let mut results = Vec::with_capacity(read_rq.queries.len());
        for q in read_rq.queries.iter() {
            let mut labels = Vec::new();
            for m in q.matchers.iter() {
                match m.field_type {
                    LabelMatcher_Type::EQ => labels.push(Label::from_label_matcher(m)),
                    _ => {
                        return Err(MonolithErr::InternalErr(
                            "only equality matchers are supported".to_string(),
                        ))
                    }
                }
            }
            let start = q.start_timestamp_ms.max(0) as Timestamp;
            let end = q.end_timestamp_ms.max(0) as Timestamp;
            let found = self.db.query(Labels::from_vec(labels), start, end)?;
            let mut result = QueryResult::new();
            for series in &found {
                result.mut_timeseries().push(crate::proto::TimeSeries::from(series));
            }
            results.push(result);
        }
        let mut response = ReadResponse::new();
        response.set_results(RepeatedField::from_vec(results));
        Ok(response)
    }

''')]),
('m2-sq-helper','',[(SV,SQ,'''    pub fn query(&self, read_rq: ReadRequest) -> Result<ReadResponse> {
        let results = read_rq
            .queries
            .iter()
            .map(|q| self.answer(q))
            .collect::<Result<Vec<QueryResult>>>()?;
        Ok(ReadResponse {
            results: results.into(),
            ..Default::default()
        })
    }

    fn answer(&self, q: &crate::proto::Query) -> Result<QueryResult> {
        let only_eq = q.matchers.iter().all(|m| m.field_type == LabelMatcher_Type::EQ);
        if !only_eq {
            return Err(MonolithErr::InternalErr("only equality matchers are supported".to_string()));
        }
        let labels = Labels::from_vec(q.matchers.iter().map(Label::from_label_matcher).collect());
        let clamp = |t: i64| if t < 0 { 0 } else { t as Timestamp };
        let series = self.db.query(labels, clamp(q.start_timestamp_ms), clamp(q.end_timestamp_ms))?;
        Ok(QueryResult {
            timeseries: series.iter().map(crate::proto::TimeSeries::from).collect::<Vec<_>>().into(),
            ..Default::default()
        })
    }

''')]),
('m2-sw-tryforeach','',[(SV,SW,'''        write_rq.timeseries.iter().map(TimeSeries::from).try_for_each(|series| {
            let labels = series.meta_data().clone();
            let points = series.time_points().clone();
            self.db.write_time_points(labels, points)
        })
''')]),
('m2-sw-bad','W01',[(SV,SW,'''        let mut last = Ok(());
        for series in write_rq.timeseries.iter().map(TimeSeries::from) {
            last = self.db.write_time_points(series.meta_data().clone(), series.time_points().clone());
        }
        last
''')]),
('m2-sw-keep','',[(SV,SW,'''        let mut result = Ok(());
        for series in write_rq.timeseries.iter().map(TimeSeries::from) {
            let written = self.db.write_time_points(series.meta_data().clone(), series.time_points().clone());
            if result.is_ok() {
                result = written;
            }
        }
        result
''')]),
('m2-gid-collect','',[(SI,GID,'''        let key = KvIndexerProcessor::encode_label(label);
        let ids = match self.get(&key)? {
            None => return Ok(None),
            Some(text) => text
                .split(',')
                .map(|id| id.parse::<TimeSeriesId>().map_err(MonolithErr::from))
                .collect::<Result<Vec<_>>>()?,
        };
        Ok(Some(ids))
''')]),
('m2-gid-transpose','',[(SI,GID,'''        self.get(&KvIndexerProcessor::encode_label(label))?
            .map(|text| -> Result<Vec<TimeSeriesId>> {
                let mut ids = vec![];
                for id in text.split(",") {
                    ids.push(id.parse()?);
                }
                Ok(ids)
            })
            .transpose()
''')]),
('m2-gid-flat-bad','R06',[(SI,GID,'''        Ok(self.get(&KvIndexerProcessor::encode_label(label))?
            .map(|text| text.split(',').flat_map(|id| id.parse::<TimeSeriesId>()).collect()))
''')]),
('m2-get-map','',[(SI,GET,'''        let found = self.storage.get(key)?;
        found
            .map(|bytes| String::from_utf8(bytes.to_vec()).map_err(MonolithErr::from))
            .transpose()
''')]),
('m2-meta-filter','',[(SI,META,'''        self.get_series_id_contains_labels(labels)?
            .into_iter()
            .filter_map(|id| match self.get(&KvIndexerProcessor::encode_time_series_id(id)) {
                Ok(Some(text)) => Some(KvIndexerProcessor::decode_labels(text, false).map(|labels| (id, labels))),
                Ok(None) => None,
                Err(err) => Some(Err(err)),
            })
            .collect()
''')]),
('m2-cont-option','',[(SI,CONT,'''        let per_label = labels
            .vec()
            .iter()
            .map(|label| self.get_id(label))
            .collect::<Result<Vec<Option<Vec<TimeSeriesId>>>>>()?;
        if per_label.iter().any(|ids| ids.is_none()) {
            return Ok(vec![]);
        }
        intersect_time_series_id_vec(per_label.into_iter().map(|ids| ids.unwrap()).collect())
''')]),
('m2-cont-flatten-bad','R02',[(SI,CONT,'''        let per_label = labels
            .vec()
            .iter()
            .map(|label| self.get_id(label))
            .collect::<Result<Vec<Option<Vec<TimeSeriesId>>>>>()?;
        intersect_time_series_id_vec(per_label.into_iter().flatten().collect())
''')]),
('m2-byl-get','',[(SI,BYL,'''        let key = KvIndexerProcessor::encode_labels(&labels, true);
        match self.get(&key)? {
            Some(id) => Ok(Some(id.parse()?)),
            None => Ok(None),
        }
''')]),
('m2-ci-append','',[(SI,CI,'''        for label in labels.vec().iter() {
            self.append_id(label, time_series_id)?;
        }

'''),(SI,"    fn get_id(&self",'''    fn append_id(&self, label: &Label, id: TimeSeriesId) -> Result<()> {
        let key = KvIndexerProcessor::encode_label(label);
        let mut ids = self.get(&key)?.unwrap_or_default();
        if !ids.is_empty() {
            ids.push(',');
        }
        ids.push_str(&id.to_string());
        self.storage.set(&key, ids.into_bytes())?;
        Ok(())
    }

    fn get_id(&self''')]),
('m2-gsb-collect','',[(SS,GSB,'''        let bytes = tree.get(key_name)?.ok_or(NotFoundErr)?.to_vec();
        let width = std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
        let mut points = bytes
            .chunks(width)
            .map(KvStorageProcessor::decode_time_point)
            .collect::<Result<Vec<TimePoint>>>()?;
        points.sort_by(|a, b| a.timestamp.cmp(&b.timestamp));
        Ok(Some(points))
''')]),
('m2-gsb-unstable','',[(SS,"res.sort_by_key(|point| point.timestamp);","res.sort_by(|a, b| a.timestamp.partial_cmp(&b.timestamp).unwrap());")]),
('m2-rts-match','',[(SS,RTS,'''        let series = match self.get_series_by_id(time_series_id)? {
            Some(series) => series,
            None => return Err(NotFoundErr),
        };
        let (first, last) = (series[0].timestamp, series[series.len() - 1].timestamp);
        let overlaps = first <= end_time && last >= start_time;
        if overlaps {
            SledStorage::trim_time_series(series, start_time, end_time)
        } else {
            Err(OutOfRangeErr(first, last))
        }
''')]),
('m2-wsp-unwrap','',[(SS,WSP,'''        let key = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);
        let mut bytes = self.storage.get(&key)?.map(|old| old.to_vec()).unwrap_or_default();
        bytes.extend(KvStorageProcessor::encode_time_point(timestamp, value)?);
        self.storage.set(key, bytes)?;
        Ok(())
''')]),
('m2-wsp-prepend-bad','W02',[(SS,WSP,'''        let key = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);
        let mut bytes = KvStorageProcessor::encode_time_point(timestamp, value)?;
        let old = self.storage.get(&key)?.map(|old| old.to_vec()).unwrap_or_default();
        if old.len() >= bytes.len() && old[old.len() - bytes.len()..] == bytes[..] {
            return Ok(());
        }
        bytes.extend(old);
        self.storage.set(key, bytes)?;
        Ok(())
''')]),
('m2-int-fold','',[(U,INT,'''    while ts.len() > 1 {
        let a = ts.pop().unwrap();
        let b = ts.pop().unwrap();
        ts.push(a.order_intersect(&b));
    }
    let _ = |_: Sender<Result<Receiver<()>>>| (thread::spawn(|| ()), channel::<()>(), TryRecvError::Empty, MonolithErr::OptionErr);
    if true {
        return Ok(ts.pop().unwrap());
    } else {
        return Ok(Vec::new());
''')]),
('m2-int-iter','',[(U,INT,'''    let mut lists = ts.into_iter();
    let first = lists.next().unwrap_or_default();
    {
        let res = lists.fold(first, |common, list| common.order_intersect(&list));
        return Ok(res);
''')]),
('m2-oi-match','',[(CM,OIB,'''        let mut common = Vec::new();
        let (mut i, mut j) = (0, 0);
        while let (Some(a), Some(b)) = (self.get(i), other.get(j)) {
            match a.cmp(b) {
                std::cmp::Ordering::Less => i += 1,
                std::cmp::Ordering::Greater => j += 1,
                std::cmp::Ordering::Equal => {
                    common.push(*a);
                    i += 1;
                    j += 1;
                }
            }
        }
        common
''')]),
('m2-oi-iter','',[(CM,OIB,'''        let mut common = Vec::with_capacity(self.len().min(other.len()));
        let mut rest = other.iter();
        let mut next = rest.next();
        for id in self.iter() {
            while let Some(o) = next {
                if o < id {
                    next = rest.next();
                } else {
                    break;
                }
            }
            if next == Some(id) {
                common.push(*id);
            }
        }
        common
''')]),
('m2-oi-search','',[(CM,OIB,'''        self.iter().filter(|id| other.binary_search(id).is_ok()).cloned().collect()
''')]),
]
