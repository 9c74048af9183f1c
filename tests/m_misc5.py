D='src/db.rs'; CK='src/chunk/chunk.rs'; SV='src/server.rs'; SI='src/indexer/sled_indexer.rs'; SS='src/storage/sled_storage.rs'; U='src/common/utils.rs'; CM='src/common/mod.rs'; LB='src/common/label.rs'
TS='src/common/time_series.rs'; TP='src/common/time_point.rs'
def cut(p,a,b):
    s=open('/repo/'+p).read(); i=s.index(a); return s[i:s.index(b,i)]
DQ=cut(D,"        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();","    }\n\n    fn swap")
DW=cut(D,"        let _c = &self.current_chuck.read().unwrap();\n        let (start_time, end_time)","    }\n\n    pub fn write_time_point(")
SW=cut(D,"        let chunk = Chunk::<S, I>::new(storage, indexer, &chunk_opt);\n        {\n","        Ok(())\n    }\n}\n\n#[cfg(test)]")
RX=cut(D,"        let mut res = Vec::new();\n        for entry in fs::read_dir(dir)?","    }\n\n    /// Write time points with same")
RM=cut(D,"        let content = match fs::read_to_string(base_dir","        Ok(())\n    }\n\n    ///Read the existing")
CI=cut(CK,"        if !self.is_in_range(&timepoint.timestamp)","        Ok(())\n    }\n\n    pub fn query(")
CQ=cut(CK,"        if !is_duration_overlap(self.start_time, self.end_time, start_time, end_time) {\n            return Err","    }\n\n    pub fn is_with_range")
CN=cut(CK,"        let start_time = ops.start_time.unwrap_or","    }\n\n    pub fn close(")
CWC=cut(CK,"        // only write when start time and end time is not null","        Ok(())\n    }\n}\n\nimpl Default")
SQ=cut(SV,"        Ok(ReadResponse {\n            results: RepeatedField::from(\n                read_rq","    }\n\n    pub fn write(")
SWR=cut(SV,"        for time_series in write_rq.timeseries.to_vec()","        Ok(())\n    }\n}\n\nimpl<'a, S, I> Clone")
SMETA=cut(SI,"        let ids = self.get_series_id_contains_labels(labels)?;","    }\n\n    fn get_series_id_contains_labels")
SCON=cut(SI,"        let mut ts_vec = Vec::new();","    }\n\n    fn get_series_id_by_labels")
SBY=cut(SI,"        if let Some(val) = self\n            .storage","    }\n\n    fn create_index")
SCI=cut(SI,"        let tree = &self.storage;\n","        Ok(())\n    }\n}\n\npub struct SledIndexerBuilder")
SGI=cut(SI,"        let key = KvIndexerProcessor::encode_label(label);","    }\n}\n\nimpl HasTypeName")
SGS=cut(SS,"        let tree: &Tree = &self.storage;\n        let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);\n        match","    }\n}\n\nimpl Storage")
SWP=cut(SS,"        let tree: &Tree = &self.storage;\n        let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);\n        let mut value","        Ok(())\n    }\n\n    fn read_time_series")
SRD=cut(SS,"        let series = self.get_series_by_id(time_series_id)?.ok_or(NotFoundErr)?;","    }\n}\n\nimpl HasTypeName")
LEQ=cut(LB,"        if self.len() != other.len() {","    }\n}\n")
ED=cut(U,"        let mut res = 0u128;".replace('        ','    ',1),"}\n\npub fn decode_chunk_dir")
DD=cut(U,"    let decimal = u128","}\n\n/// Given a list")
IX=cut(U,"    type TimeSeriesIdMatrix = Vec<Vec<TimeSeriesId>>;\n    if ts.len() == 0","}\n\n/// ") if False else None
M=[
# ------------------------------------------------------------ database query
('m5-dq-entry','',[(D,DQ,'''        let mut newest_first: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        let current = self.current_chuck.read().unwrap();
        let secondary = self.secondary_chunks.read().unwrap();
        for chunk in std::iter::once(&*current).chain(secondary.iter().rev()) {
            if !chunk.is_with_range(start_time, end_time) {
                continue;
            }
            for series in chunk.query(labels.clone(), start_time, end_time)? {
                newest_first
                    .entry(series.meta_data().clone())
                    .or_insert_with(Vec::new)
                    .extend(series.time_points().iter().rev().cloned());
            }
        }
        Ok(newest_first
            .into_iter()
            .map(|(labels, mut points)| {
                points.reverse();
                (labels, points)
            })
            .collect())
''')]),
('m5-dq-oldest','',[(D,DQ,'''        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        let current = self.current_chuck.read().unwrap();
        let secondary = self.secondary_chunks.read().unwrap();
        for chunk in secondary.iter().chain(std::iter::once(&*current)) {
            if chunk.is_with_range(start_time, end_time) {
                let found = chunk.query(labels.clone(), start_time, end_time)?;
                for series in &found {
                    res.entry(series.meta_data().clone())
                        .or_default()
                        .extend_from_slice(series.time_points());
                }
            }
        }
        Ok(res.into_iter().collect::<Vec<_>>())
''')]),
('m5-dq-oldest-bad','R05',[(D,DQ,'''        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        let current = self.current_chuck.read().unwrap();
        let secondary = self.secondary_chunks.read().unwrap();
        for chunk in std::iter::once(&*current).chain(secondary.iter()) {
            if chunk.is_with_range(start_time, end_time) {
                let found = chunk.query(labels.clone(), start_time, end_time)?;
                for series in &found {
                    res.entry(series.meta_data().clone())
                        .or_default()
                        .extend_from_slice(series.time_points());
                }
            }
        }
        Ok(res.into_iter().collect::<Vec<_>>())
''')]),
('m5-dq-insert-bad','R05',[(D,DQ,'''        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        let current = self.current_chuck.read().unwrap();
        let secondary = self.secondary_chunks.read().unwrap();
        for chunk in secondary.iter().chain(std::iter::once(&*current)) {
            if chunk.is_with_range(start_time, end_time) {
                for series in &chunk.query(labels.clone(), start_time, end_time)? {
                    res.insert(series.meta_data().clone(), series.time_points().clone());
                }
            }
        }
        Ok(res.into_iter().collect::<Vec<_>>())
''')]),
('m5-dq-orinsert-bad','R05',[(D,DQ,'''        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        let current = self.current_chuck.read().unwrap();
        let secondary = self.secondary_chunks.read().unwrap();
        for chunk in secondary.iter().chain(std::iter::once(&*current)) {
            if chunk.is_with_range(start_time, end_time) {
                for series in &chunk.query(labels.clone(), start_time, end_time)? {
                    res.entry(series.meta_data().clone())
                        .or_insert_with(|| series.time_points().clone());
                }
            }
        }
        Ok(res.into_iter().collect::<Vec<_>>())
''')]),
('m5-dq-lock-order-bad','K02',[(D,DQ,'''        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        let secondary = self.secondary_chunks.read().unwrap();
        let current = self.current_chuck.read().unwrap();
        for chunk in secondary.iter().chain(std::iter::once(&*current)) {
            if chunk.is_with_range(start_time, end_time) {
                for series in &chunk.query(labels.clone(), start_time, end_time)? {
                    res.entry(series.meta_data().clone())
                        .or_default()
                        .extend_from_slice(series.time_points());
                }
            }
        }
        Ok(res.into_iter().collect::<Vec<_>>())
''')]),
('m5-dq-snapshot-bad','K03',[(D,DQ,'''        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        let mut chunks = self.secondary_chunks.read().unwrap().clone();
        chunks.push(self.current_chuck.read().unwrap().clone());
        for chunk in chunks {
            if chunk.is_with_range(start_time, end_time) {
                for series in &chunk.query(labels.clone(), start_time, end_time)? {
                    res.entry(series.meta_data().clone())
                        .or_default()
                        .extend_from_slice(series.time_points());
                }
            }
        }
        Ok(res.into_iter().collect::<Vec<_>>())
''')]),
('m5-dq-snapshot','',[(D,DQ,'''        let mut res: HashMap<Labels, Vec<TimePoint>> = HashMap::new();
        let chunks = {
            let current = self.current_chuck.read().unwrap();
            let mut chunks = self.secondary_chunks.read().unwrap().clone();
            chunks.push(Arc::clone(&current));
            chunks
        };
        for chunk in chunks.iter().filter(|c| c.is_with_range(start_time, end_time)) {
            for series in chunk.query(labels.clone(), start_time, end_time)? {
                res.entry(series.meta_data().clone())
                    .or_default()
                    .extend(series.time_points().iter().cloned());
            }
        }
        Ok(res.into_iter().collect())
''')]),
# ------------------------------------------------------------ database write
('m5-dw-loop','',[(D,DW,'''        let chunk = self.current_chuck.read().unwrap();
        let (from, to) = chunk.start_end_time();
        let mut failed = 0usize;
        for point in timepoints {
            if point.timestamp == 0 || point.timestamp < from || to < point.timestamp {
                continue;
            }
            if let Err(err) = chunk.insert(labels.clone(), point) {
                error!("time point failed to insert: {}", err);
                failed += 1;
            }
        }
        if failed > 0 {
            return Err(MonolithErr::InternalErr(format!(
                "{} time point cannot insert",
                failed
            )));
        }
        Ok(())
''')]),
('m5-dw-tryfor','',[(D,DW,'''        let chunk = self.current_chuck.read().unwrap();
        let (from, to) = chunk.start_end_time();
        let window = from.max(1)..=to;
        timepoints
            .into_iter()
            .filter(|point| window.contains(&point.timestamp))
            .try_for_each(|point| chunk.insert(labels.clone(), point))
''')]),
('m5-dw-partition','',[(D,DW,'''        let chunk = self.current_chuck.read().unwrap();
        let (from, to) = chunk.start_end_time();
        let (inside, outside): (Vec<TimePoint>, Vec<TimePoint>) = timepoints
            .into_iter()
            .partition(|tp| tp.timestamp >= from && tp.timestamp <= to && tp.timestamp != 0);
        debug!("{} points outside of the chunk", outside.len());
        let failed = inside
            .into_iter()
            .filter_map(|tp| chunk.insert(labels.clone(), tp).err())
            .count();
        if failed != 0 {
            error!("{} time point failed to insert", failed);
            return Err(MonolithErr::InternalErr(
                "multiple time point cannot insert".to_string(),
            ));
        }
        Ok(())
''')]),
('m5-dw-any-bad','W01',[(D,DW,'''        let chunk = self.current_chuck.read().unwrap();
        let (from, to) = chunk.start_end_time();
        let stored = timepoints
            .into_iter()
            .filter(|tp| tp.timestamp >= from && tp.timestamp <= to && tp.timestamp != 0)
            .map(|tp| chunk.insert(labels.clone(), tp))
            .filter(|res| res.is_ok())
            .count();
        if stored == 0 {
            return Err(MonolithErr::InternalErr(
                "multiple time point cannot insert".to_string(),
            ));
        }
        Ok(())
''')]),
('m5-dw-last-bad','W01',[(D,DW,'''        let chunk = self.current_chuck.read().unwrap();
        let (from, to) = chunk.start_end_time();
        let mut res = Ok(());
        for point in timepoints {
            if point.timestamp >= from && point.timestamp <= to && point.timestamp != 0 {
                res = chunk.insert(labels.clone(), point);
            }
        }
        res
''')]),
('m5-dw-takewhile-bad','W01',[(D,DW,'''        let chunk = self.current_chuck.read().unwrap();
        let (from, to) = chunk.start_end_time();
        timepoints
            .into_iter()
            .skip_while(|tp| tp.timestamp < from || tp.timestamp == 0)
            .take_while(|tp| tp.timestamp <= to)
            .try_for_each(|tp| chunk.insert(labels.clone(), tp))
''')]),
('m5-dw-and','',[(D,DW,'''        let chunk = self.current_chuck.read().unwrap();
        let (from, to) = chunk.start_end_time();
        let mut res = Ok(());
        for point in timepoints {
            if point.timestamp >= from && point.timestamp <= to && point.timestamp != 0 {
                res = res.and(chunk.insert(labels.clone(), point));
            }
        }
        res
''')]),
# ------------------------------------------------------------ rotation
('m5-sw-replace','',[(D,SW,'''        let next = Arc::new(Chunk::<S, I>::new(storage, indexer, &chunk_opt));
        let mut current = self.current_chuck.write().unwrap();
        let mut previous = self.secondary_chunks.write().unwrap();
        let old = std::mem::replace(&mut *current, next);
        old.close();
        info!("The old chunk with end time {} is closed", old.start_end_time().1);
        previous.push(old);
''')]),
('m5-sw-replace-bad','K03',[(D,SW,'''        let next = Arc::new(Chunk::<S, I>::new(storage, indexer, &chunk_opt));
        let old = std::mem::replace(&mut *self.current_chuck.write().unwrap(), next);
        old.close();
        self.secondary_chunks.write().unwrap().push(old);
''')]),
('m5-sw-insert0-bad','R05',[(D,SW,'''        let next = Arc::new(Chunk::<S, I>::new(storage, indexer, &chunk_opt));
        let mut current = self.current_chuck.write().unwrap();
        let old = std::mem::replace(&mut *current, next);
        old.close();
        self.secondary_chunks.write().unwrap().insert(0, old);
''')]),
('m5-sw-noclose-bad','D06',[(D,SW,'''        let next = Arc::new(Chunk::<S, I>::new(storage, indexer, &chunk_opt));
        let mut current = self.current_chuck.write().unwrap();
        let old = std::mem::replace(&mut *current, next);
        current.close();
        self.secondary_chunks.write().unwrap().push(old);
''')]),
# ------------------------------------------------------------ reopening
('m5-rx-filtermap','',[(D,RX,'''        let mut chunks = Vec::new();
        for entry in fs::read_dir(dir)? {
            let path = entry?.path();
            let name = match path.file_name().and_then(|name| name.to_str()) {
                Some(name) => name.to_string(),
                None => continue,
            };
            let (start_time, end_time) = match decode_chunk_dir(name) {
                Ok(window) => window,
                Err(_) => continue,
            };
            let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
                Ok(opts) => opts,
                Err(MonolithErr::NotFoundErr) => continue,
                Err(err) => return Err(err),
            };
            chunk_opts.start_time = Some(start_time);
            chunk_opts.end_time = Some(end_time.min(get_current_timestamp()));
            let storage =
                storage_builder.read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;
            let indexer =
                indexer_builder.read_from_chunk(&path.join("indexer"), Some(&chunk_opts))?;
            if let (Some(storage), Some(indexer)) = (storage, indexer) {
                let chunk = Chunk::new(storage, indexer, &chunk_opts);
                chunk.close();
                chunks.push(Arc::new(chunk));
            }
        }
        chunks.sort();
        Ok(chunks)
''')]),
('m5-rx-flatten-bad','D03',[(D,RX,'''        let mut chunks = Vec::new();
        for path in fs::read_dir(dir)?.filter_map(|entry| entry.ok()).map(|e| e.path()) {
            let name = match path.file_name().and_then(|name| name.to_str()) {
                Some(name) => name.to_string(),
                None => continue,
            };
            if let Ok((start_time, end_time)) = decode_chunk_dir(name) {
                let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
                    Ok(opts) => opts,
                    Err(_) => continue,
                };
                chunk_opts.start_time = Some(start_time);
                chunk_opts.end_time = Some(end_time.min(get_current_timestamp()));
                let storage =
                    storage_builder.read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;
                let indexer =
                    indexer_builder.read_from_chunk(&path.join("indexer"), Some(&chunk_opts))?;
                if let (Some(storage), Some(indexer)) = (storage, indexer) {
                    let chunk = Chunk::new(storage, indexer, &chunk_opts);
                    chunk.close();
                    chunks.push(Arc::new(chunk));
                }
            }
        }
        chunks.sort();
        Ok(chunks)
''')]),
('m5-rx-zip','',[(D,RX,'''        let mut res = Vec::new();
        for entry in fs::read_dir(dir)? {
            let path = entry?.path();
            let window = decode_chunk_dir(path.file_name().unwrap().to_str().unwrap().to_owned());
            if let Ok((start_time, end_time)) = window {
                let stored = match ChunkOpts::read_config_from_dir(&path) {
                    Err(MonolithErr::NotFoundErr) => continue,
                    other => other?,
                };
                let now = get_current_timestamp();
                let chunk_opts = ChunkOpts {
                    start_time: Some(start_time),
                    end_time: Some(if now < end_time { now } else { end_time }),
                    ..stored
                };
                let parts = storage_builder
                    .read_from_chunk(&path.join("storage"), Some(&chunk_opts))?
                    .zip(indexer_builder.read_from_chunk(&path.join("indexer"), Some(&chunk_opts))?);
                if let Some((storage, indexer)) = parts {
                    let chunk = Chunk::new(storage, indexer, &chunk_opts);
                    chunk.close();
                    res.push(Arc::new(chunk));
                }
            }
        }
        res.sort();

        Ok(res)
''')]),
('m5-rx-ident-bad','D03',[(D,RX,'''        let mut res = Vec::new();
        for entry in fs::read_dir(dir)? {
            let path = entry?.path();
            let window = decode_chunk_dir(path.file_name().unwrap().to_str().unwrap().to_owned());
            if let Ok((start_time, end_time)) = window {
                match ChunkOpts::read_config_from_dir(&path) {
                    Err(MonolithErr::NotFoundErr) => continue,
                    other => other?,
                };
                let now = get_current_timestamp();
                let chunk_opts = ChunkOpts {
                    start_time: Some(start_time),
                    end_time: Some(if now < end_time { now } else { end_time }),
                    ..ChunkOpts::default()
                };
                let storage =
                    storage_builder.read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;
                let indexer =
                    indexer_builder.read_from_chunk(&path.join("indexer"), Some(&chunk_opts))?;
                if let (Some(storage), Some(indexer)) = (storage, indexer) {
                    let chunk = Chunk::new(storage, indexer, &chunk_opts);
                    chunk.close();
                    res.push(Arc::new(chunk));
                }
            }
        }
        res.sort();

        Ok(res)
''')]),
# ------------------------------------------------------------ db metadata
('m5-rm-match','',[(D,RM,'''        let path = base_dir.join(DB_METADATA_FILENAME);
        match fs::read_to_string(&path) {
            Ok(content) => {
                let known: DbMetadata = serde_json::from_str(&content)?;
                let same = known.indexer_type == db_metadata.indexer_type
                    && known.storage_type == db_metadata.storage_type;
                if !same {
                    return Err(MonolithErr::OptionErr);
                }
            }
            Err(ref err) if err.kind() == ErrorKind::NotFound => {
                let aside = base_dir.join(format!("{}.tmp", DB_METADATA_FILENAME));
                let mut file = File::create(&aside)?;
                file.write_all(serde_json::to_string(db_metadata)?.as_bytes())?;
                file.sync_all()?;
                fs::rename(aside, path)?;
            }
            Err(err) => return Err(err.into()),
        }
''')]),
('m5-rm-or-bad','D01',[(D,RM,'''        let path = base_dir.join(DB_METADATA_FILENAME);
        match fs::read_to_string(&path) {
            Ok(content) => {
                let known: DbMetadata = serde_json::from_str(&content)?;
                let same = known.indexer_type == db_metadata.indexer_type
                    || known.storage_type == db_metadata.storage_type;
                if !same {
                    return Err(MonolithErr::OptionErr);
                }
            }
            Err(ref err) if err.kind() == ErrorKind::NotFound => {
                let aside = base_dir.join(format!("{}.tmp", DB_METADATA_FILENAME));
                let mut file = File::create(&aside)?;
                file.write_all(serde_json::to_string(db_metadata)?.as_bytes())?;
                file.sync_all()?;
                fs::rename(aside, path)?;
            }
            Err(err) => return Err(err.into()),
        }
''')]),
('m5-rm-swap-bad','',[(D,RM,'''        let path = base_dir.join(DB_METADATA_FILENAME);
        match fs::read_to_string(&path) {
            Ok(content) => {
                let known: DbMetadata = serde_json::from_str(&content)?;
                let mut a = [known.indexer_type, known.storage_type];
                let mut b = [db_metadata.indexer_type.clone(), db_metadata.storage_type.clone()];
                a.sort();
                b.sort();
                if a != b {
                    return Err(MonolithErr::OptionErr);
                }
            }
            Err(ref err) if err.kind() == ErrorKind::NotFound => {
                let aside = base_dir.join(format!("{}.tmp", DB_METADATA_FILENAME));
                let mut file = File::create(&aside)?;
                file.write_all(serde_json::to_string(db_metadata)?.as_bytes())?;
                file.sync_all()?;
                fs::rename(aside, path)?;
            }
            Err(err) => return Err(err.into()),
        }
''')]),
# ------------------------------------------------------------ chunk
('m5-ci-match','',[(CK,CI,'''        let TimePoint { timestamp, value } = timepoint;
        if timestamp < self.start_time || timestamp > self.end_time {
            info!("Chunk range {}, {}; but trying to insert {}", self.start_time, self.end_time, timestamp);
            return Err(OutOfRangeErr(self.start_time, self.end_time));
        }
        let series = match self.indexer.get_series_id_by_labels(labels.clone())? {
            Some(id) => id,
            None => {
                let id = self.id_generator.next();
                self.indexer.create_index(labels, id)?;
                id
            }
        };
        self.storage.write_time_point(series, timestamp, value)?;
''')]),
('m5-ci-orelse','',[(CK,CI,'''        if !(self.start_time..=self.end_time).contains(&timepoint.timestamp) {
            return Err(OutOfRangeErr(self.start_time, self.end_time));
        }
        let known = self.indexer.get_series_id_by_labels(labels.clone())?;
        let id = known.map(Ok).unwrap_or_else(|| {
            let fresh = self.id_generator.next();
            self.indexer.create_index(labels, fresh).map(|_| fresh)
        })?;
        self.storage.write_time_point(id, timepoint.timestamp, timepoint.value)?;
''')]),
('m5-ci-first-bad','W05',[(CK,CI,'''        if !(self.start_time..=self.end_time).contains(&timepoint.timestamp) {
            return Err(OutOfRangeErr(self.start_time, self.end_time));
        }
        let known = self.indexer.get_series_id_by_labels(labels.clone())?;
        let id = known.map(Ok).unwrap_or_else(|| {
            let fresh = self.id_generator.next();
            self.indexer.create_index(labels, fresh).map(|_| fresh).or(Ok::<_, MonolithErr>(fresh))
        })?;
        self.storage.write_time_point(id, timepoint.timestamp, timepoint.value)?;
''')]),
('m5-ci-half-bad','W03',[(CK,CI,CI.replace("!self.is_in_range(&timepoint.timestamp)","!(self.start_time..self.end_time).contains(&timepoint.timestamp)"))]),
('m5-cq-filtermap','',[(CK,CQ,'''        if !self.is_with_range(start_time, end_time) {
            return Err(OutOfRangeErr(self.start_time, self.end_time));
        }
        self.indexer
            .get_series_metadata_contains_labels(labels)?
            .into_iter()
            .filter_map(
                |(id, metadata)| match self.storage.read_time_series(id, start_time, end_time) {
                    Ok(points) if points.is_empty() => None,
                    Ok(points) => Some(Ok(TimeSeries::from_data(id, metadata, points))),
                    Err(MonolithErr::OutOfRangeErr(..)) | Err(MonolithErr::NotFoundErr) => None,
                    Err(err) => Some(Err(err)),
                },
            )
            .collect()
''')]),
('m5-cq-ok-bad','R06',[(CK,CQ,'''        if !self.is_with_range(start_time, end_time) {
            return Err(OutOfRangeErr(self.start_time, self.end_time));
        }
        Ok(self
            .indexer
            .get_series_metadata_contains_labels(labels)?
            .into_iter()
            .filter_map(|(id, metadata)| {
                let points = self.storage.read_time_series(id, start_time, end_time).ok()?;
                if points.is_empty() {
                    return None;
                }
                Some(TimeSeries::from_data(id, metadata, points))
            })
            .collect())
''')]),
('m5-cq-first-bad','R04',[(CK,CQ,'''        if !self.is_with_range(start_time, end_time) {
            return Err(OutOfRangeErr(self.start_time, self.end_time));
        }
        let mut res = Vec::new();
        for (id, metadata) in self.indexer.get_series_metadata_contains_labels(labels)? {
            match self.storage.read_time_series(id, start_time, end_time) {
                Ok(points) => {
                    if points.is_empty() {
                        break;
                    }
                    res.push(TimeSeries::from_data(id, metadata, points));
                }
                Err(MonolithErr::OutOfRangeErr(..)) | Err(MonolithErr::NotFoundErr) => {}
                Err(err) => return Err(err),
            }
        }
        Ok(res)
''')]),
('m5-cq-wrong-id-bad','R04',[(CK,CQ,CQ.replace("TimeSeries::from_data(id, metadata, data)","TimeSeries::from_data(id, metadata.clone(), data.into_iter().filter(|p| p.timestamp != start_time).collect())"))]),
('m5-cn-match','',[(CK,CN,'''        let default_size: Timestamp = DEFAULT_CHUNK_SIZE.parse().unwrap();
        let (start_time, end_time) = match (ops.start_time, ops.end_time) {
            (Some(start), Some(end)) => (start, end),
            (Some(start), None) => (start, start + default_size),
            (None, end) => {
                let now = get_current_timestamp();
                (now, end.unwrap_or(now + default_size))
            }
        };
        Chunk {
            storage,
            indexer,
            start_time,
            end_time,
            mutex: Default::default(),
            closed: Default::default(),
            id_generator: IdGenerator::new(1),
        }
''')]),
('m5-cwc-string','',[(CK,CWC,'''        if let (Some(_), Some(_)) = (self.start_time, self.end_time) {
            fs::create_dir_all(dir)?;
            let aside = dir.join(format!("{}.tmp", CHUNK_METADATA_FILENAME));
            let mut file = File::create(&aside)?;
            let text = serde_json::to_vec(self)?;
            file.write_all(&text)?;
            file.sync_all()?;
            fs::rename(&aside, dir.join(CHUNK_METADATA_FILENAME))?;
        }
''')]),
('m5-cwc-string-bad','D04',[(CK,CWC,'''        if let (Some(_), Some(_)) = (self.start_time, self.end_time) {
            fs::create_dir_all(dir)?;
            let aside = dir.join(format!("{}.tmp", CHUNK_METADATA_FILENAME));
            let mut file = File::create(&aside)?;
            let text = serde_json::to_vec(self)?;
            file.write_all(&text)?;
            fs::rename(&aside, dir.join(CHUNK_METADATA_FILENAME))?;
            file.flush()?;
        }
''')]),
# ------------------------------------------------------------ server
('m5-sq-loop','',[(SV,SQ,'''        let mut response = ReadResponse::new();
        for q in read_rq.queries.iter() {
            if q.matchers.iter().any(|m| m.field_type != LabelMatcher_Type::EQ) {
                return Err(MonolithErr::InternalErr(
                    "only equality matchers are supported".to_string(),
                ));
            }
            let labels = q.matchers.iter().map(Label::from_label_matcher).collect();
            let from = std::cmp::max(q.start_timestamp_ms, 0) as Timestamp;
            let to = std::cmp::max(q.end_timestamp_ms, 0) as Timestamp;
            let mut result = QueryResult::new();
            for pairs in self.db.query(Labels::from_vec(labels), from, to)?.iter() {
                result.timeseries.push(crate::proto::TimeSeries::from(pairs));
            }
            response.results.push(result);
        }
        Ok(response)
''')]),
('m5-sq-merge-bad','S03',[(SV,SQ,'''        let mut response = ReadResponse::new();
        let mut result = QueryResult::new();
        for q in read_rq.queries.iter() {
            if q.matchers.iter().any(|m| m.field_type != LabelMatcher_Type::EQ) {
                return Err(MonolithErr::InternalErr(
                    "only equality matchers are supported".to_string(),
                ));
            }
            let labels = q.matchers.iter().map(Label::from_label_matcher).collect();
            let from = std::cmp::max(q.start_timestamp_ms, 0) as Timestamp;
            let to = std::cmp::max(q.end_timestamp_ms, 0) as Timestamp;
            for pairs in self.db.query(Labels::from_vec(labels), from, to)?.iter() {
                result.timeseries.push(crate::proto::TimeSeries::from(pairs));
            }
        }
        response.results.push(result);
        Ok(response)
''')]),
('m5-sq-filter-bad','S04',[(SV,SQ,'''        let mut response = ReadResponse::new();
        for q in read_rq.queries.iter() {
            let labels = q
                .matchers
                .iter()
                .filter(|m| m.field_type == LabelMatcher_Type::EQ)
                .map(Label::from_label_matcher)
                .collect();
            let from = std::cmp::max(q.start_timestamp_ms, 0) as Timestamp;
            let to = std::cmp::max(q.end_timestamp_ms, 0) as Timestamp;
            let mut result = QueryResult::new();
            for pairs in self.db.query(Labels::from_vec(labels), from, to)?.iter() {
                result.timeseries.push(crate::proto::TimeSeries::from(pairs));
            }
            response.results.push(result);
        }
        Ok(response)
''')]),
('m5-swr-each','',[(SV,SWR,'''        write_rq.timeseries.iter().map(TimeSeries::from).try_for_each(|series| {
            self.db
                .write_time_points(series.meta_data().clone(), series.time_points().to_vec())
        })?;
''')]),
('m5-swr-while','',[(SV,SWR,'''        let mut pending = write_rq.timeseries.into_iter();
        while let Some(received) = pending.next() {
            let series = TimeSeries::from(&received);
            let labels = series.meta_data().clone();
            let points = series.time_points().clone();
            if let Err(err) = self.db.write_time_points(labels, points) {
                return Err(err);
            }
        }
''')]),
('m5-swr-while-bad','W01',[(SV,SWR,'''        let mut pending = write_rq.timeseries.into_iter();
        while let Some(received) = pending.next() {
            let series = TimeSeries::from(&received);
            let labels = series.meta_data().clone();
            let points = series.time_points().clone();
            if let Err(err) = self.db.write_time_points(labels, points) {
                error!("cannot write series: {}", err);
                break;
            }
        }
''')]),
# ------------------------------------------------------------ sled indexer
('m5-sm-map','',[(SI,SMETA,'''        self.get_series_id_contains_labels(labels)?
            .into_iter()
            .filter_map(|id| {
                match self.get(&KvIndexerProcessor::encode_time_series_id(id)) {
                    Ok(Some(text)) => {
                        Some(KvIndexerProcessor::decode_labels(text, false).map(|l| (id, l)))
                    }
                    Ok(None) => None,
                    Err(err) => Some(Err(err)),
                }
            })
            .collect()
''')]),
('m5-sm-map-bad','R06',[(SI,SMETA,'''        Ok(self
            .get_series_id_contains_labels(labels)?
            .into_iter()
            .filter_map(|id| {
                let text = self.get(&KvIndexerProcessor::encode_time_series_id(id)).ok()??;
                Some((id, KvIndexerProcessor::decode_labels(text, false).ok()?))
            })
            .collect())
''')]),
('m5-sc-collect','',[(SI,SCON,'''        let lists = labels
            .vec()
            .iter()
            .map(|label| self.get_id(label))
            .collect::<Result<Option<Vec<_>>>>();
        match lists {
            Ok(Some(lists)) => intersect_time_series_id_vec(lists),
            Ok(None) => Ok(vec![]),
            Err(err) => Err(err),
        }
''')] if False else [(SI,SCON,'''        let lists = labels
            .vec()
            .iter()
            .map(|label| self.get_id(label))
            .collect::<Result<Vec<Option<Vec<TimeSeriesId>>>>>()?;
        if lists.iter().any(|list| list.is_none()) {
            return Ok(Vec::new());
        }
        intersect_time_series_id_vec(lists.into_iter().flatten().collect())
''')]),
('m5-sc-flatten-bad','R02',[(SI,SCON,'''        let lists = labels
            .vec()
            .iter()
            .map(|label| self.get_id(label))
            .collect::<Result<Vec<Option<Vec<TimeSeriesId>>>>>()?;
        intersect_time_series_id_vec(lists.into_iter().flatten().collect())
''')]),
('m5-sc-dflt','',[(SI,SCON,'''        let mut lists = Vec::with_capacity(labels.len());
        for label in labels.vec() {
            lists.push(self.get_id(label)?.unwrap_or_default());
        }
        intersect_time_series_id_vec(lists)
''')]),
('m5-sb-match','',[(SI,SBY,'''        match self.storage.get(KvIndexerProcessor::encode_labels(&labels, true))? {
            None => Ok(None),
            Some(raw) => {
                let text = String::from_utf8(raw.to_vec())?;
                let id = text.parse::<TimeSeriesId>()?;
                Ok(Some(id))
            }
        }
''')]),
('m5-sb-ok-bad','W04',[(SI,SBY,'''        match self.storage.get(KvIndexerProcessor::encode_labels(&labels, true))? {
            None => Ok(None),
            Some(raw) => Ok(String::from_utf8(raw.to_vec())?.parse::<TimeSeriesId>().ok()),
        }
''')]),
('m5-sci-loop','',[(SI,SCI,'''        let id = time_series_id.to_string();
        let marker = KvIndexerProcessor::encode_labels(&labels, true);
        if self.storage.get(&marker)?.is_some() {
            return Err(MonolithErr::InternalErr("Duplicate label => id pair found in storage".into()));
        }
        for label in labels.vec() {
            let key = KvIndexerProcessor::encode_label(label);
            let mut list = self.get(&key)?.unwrap_or_default();
            if !list.is_empty() {
                list.push(',');
            }
            list.push_str(&id);
            self.storage.set(&key, list.into_bytes())?;
        }
        self.storage.set(
            KvIndexerProcessor::encode_time_series_id(time_series_id),
            KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
        )?;
        self.storage.set(marker, id.into_bytes())?;
        self.storage.flush()?;
''')]),
('m5-sci-order-bad','W05',[(SI,SCI,'''        let id = time_series_id.to_string();
        let marker = KvIndexerProcessor::encode_labels(&labels, true);
        if self.storage.get(&marker)?.is_some() {
            return Err(MonolithErr::InternalErr("Duplicate label => id pair found in storage".into()));
        }
        for label in labels.vec() {
            let key = KvIndexerProcessor::encode_label(label);
            let mut list = self.get(&key)?.unwrap_or_default();
            if !list.is_empty() {
                list.push(',');
            }
            list.push_str(&id);
            self.storage.set(&key, list.into_bytes())?;
        }
        self.storage.set(marker, id.into_bytes())?;
        self.storage.set(
            KvIndexerProcessor::encode_time_series_id(time_series_id),
            KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
        )?;
        self.storage.flush()?;
''')]),
('m5-sci-sep-bad','W06',[(SI,SCI,'''        let id = time_series_id.to_string();
        let marker = KvIndexerProcessor::encode_labels(&labels, true);
        if self.storage.get(&marker)?.is_some() {
            return Err(MonolithErr::InternalErr("Duplicate label => id pair found in storage".into()));
        }
        for label in labels.vec() {
            let key = KvIndexerProcessor::encode_label(label);
            let mut list = self.get(&key)?.unwrap_or_default();
            if list.len() > 1 {
                list.push(',');
            }
            list.push_str(&id);
            self.storage.set(&key, list.into_bytes())?;
        }
        self.storage.set(
            KvIndexerProcessor::encode_time_series_id(time_series_id),
            KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
        )?;
        self.storage.set(marker, id.into_bytes())?;
        self.storage.flush()?;
''')]),
('m5-sgi-map','',[(SI,SGI,'''        self.get(&KvIndexerProcessor::encode_label(label))?
            .map(|text| {
                text.split(',')
                    .map(|id| Ok(id.parse::<TimeSeriesId>()?))
                    .collect::<Result<Vec<TimeSeriesId>>>()
            })
            .transpose()
''')]),
('m5-sgi-flat-bad','R06',[(SI,SGI,'''        Ok(self
            .get(&KvIndexerProcessor::encode_label(label))?
            .map(|text| text.split(',').flat_map(|id| id.parse::<TimeSeriesId>()).collect()))
''')]),
# ------------------------------------------------------------ sled storage
('m5-sgs-map','',[(SS,SGS,'''        let key = format!("{}{}", TIME_SERIES_PREFIX, time_series_id);
        let raw = self.storage.get(key)?.ok_or(NotFoundErr)?;
        let mut points = raw
            .chunks(16)
            .map(KvStorageProcessor::decode_time_point)
            .collect::<Result<Vec<_>>>()?;
        points.sort_by(|a, b| a.timestamp.cmp(&b.timestamp));
        Ok(Some(points))
''')]),
('m5-sgs-desc-bad','R01',[(SS,SGS,'''        let key = format!("{}{}", TIME_SERIES_PREFIX, time_series_id);
        let raw = self.storage.get(key)?.ok_or(NotFoundErr)?;
        let mut points = raw
            .chunks(16)
            .map(KvStorageProcessor::decode_time_point)
            .collect::<Result<Vec<_>>>()?;
        points.sort_by(|a, b| b.timestamp.cmp(&a.timestamp));
        Ok(Some(points))
''')]),
('m5-swp-concat','',[(SS,SWP,'''        let key = SledStorage::parse_key_name(TIME_SERIES_PREFIX, time_series_id);
        let encoded = KvStorageProcessor::encode_time_point(timestamp, value)?;
        let stored = match self.storage.get(&key)? {
            Some(previous) => [previous.as_ref(), encoded.as_slice()].concat(),
            None => encoded,
        };
        self.storage.set(&key, stored)?;
''')]),
('m5-swp-order-bad','W02',[(SS,SWP,'''        let key = SledStorage::parse_key_name(TIME_SERIES_PREFIX, time_series_id);
        let encoded = KvStorageProcessor::encode_time_point(timestamp, value)?;
        let stored = match self.storage.get(&key)? {
            Some(previous) => [encoded.as_slice(), previous.as_ref()].concat(),
            None => encoded,
        };
        self.storage.set(&key, stored)?;
''')]),
('m5-srd-retain','',[(SS,SRD,'''        let mut series = match self.get_series_by_id(time_series_id)? {
            Some(series) => series,
            None => return Err(NotFoundErr),
        };
        let (first, last) = (series[0].timestamp, series[series.len() - 1].timestamp);
        if first > end_time || last < start_time {
            return Err(OutOfRangeErr(first, last));
        }
        series.retain(|point| start_time <= point.timestamp && point.timestamp <= end_time);
        Ok(series)
''')]),
('m5-srd-retain-bad','R01',[(SS,SRD,'''        let mut series = match self.get_series_by_id(time_series_id)? {
            Some(series) => series,
            None => return Err(NotFoundErr),
        };
        let (first, last) = (series[0].timestamp, series[series.len() - 1].timestamp);
        if first > end_time || last < start_time {
            return Err(OutOfRangeErr(first, last));
        }
        series.retain(|point| start_time <= point.timestamp && point.timestamp < end_time);
        Ok(series)
''')]),
('m5-srd-binary','',[(SS,SRD,'''        let series = self.get_series_by_id(time_series_id)?.ok_or(NotFoundErr)?;
        let from = series.partition_point(|p| p.timestamp < start_time);
        let to = series.partition_point(|p| p.timestamp <= end_time);
        if from >= to {
            return Err(OutOfRangeErr(
                series.first().unwrap().timestamp,
                series.last().unwrap().timestamp,
            ));
        }
        Ok(series[from..to].to_vec())
''')]),
# ------------------------------------------------------------ labels, names
('m5-leq-zip','',[(LB,LEQ,'''        self.len() == other.len() && self.0.iter().zip(&other.0).all(|(a, b)| a == b)
''')]),
('m5-leq-zip-bad','E01',[(LB,LEQ,'''        self.0.iter().zip(&other.0).all(|(a, b)| a == b)
''')]),
('m5-ed-sum','',[(U,ED,'''    let name = (u128::from(start_time) << 64) + u128::from(end_time);
    format!("{:x}", name)
''')]),
('m5-ed-len-bad','D02',[(U,ED,'''    let name = (u128::from(start_time) << 48) + u128::from(end_time);
    format!("{:x}", name)
'''),(U,DD,'''    let name = u128::from_str_radix(&dir_name, 16)?;
    Ok(((name >> 48) as Timestamp, (name & ((1 << 48) - 1)) as Timestamp))
''')]),
('m5-dd-bytes','',[(U,DD,'''    let raw = u128::from_str_radix(&dir_name, 16)?.to_be_bytes();
    let (mut start_time, mut end_time) = ([0u8; 8], [0u8; 8]);
    start_time.copy_from_slice(&raw[..8]);
    end_time.copy_from_slice(&raw[8..]);
    Ok((u64::from_be_bytes(start_time), u64::from_be_bytes(end_time)))
''')]),
]
