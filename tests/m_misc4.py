D='src/db.rs'; CK='src/chunk/chunk.rs'; SV='src/server.rs'; SI='src/indexer/sled_indexer.rs'; SS='src/storage/sled_storage.rs'; U='src/common/utils.rs'; CM='src/common/mod.rs'; LB='src/common/label.rs'; TP='src/common/time_point.rs'; TS='src/common/time_series.rs'
W='src/wal/mod.rs'; WS='src/wal/segment.rs'; TSG='src/storage/tikv_storage.rs'; TI='src/indexer/tikv_indexer.rs'; BK='src/backend/tikv.rs'; OP='src/common/option.rs'; C='src/compaction/mod.rs'; G='src/compaction/gorilla.rs'
def cut(p,a,b):
    s=open('/repo/'+p).read(); i=s.index(a); return s[i:s.index(b,i)]
GB=cut(W,"        let _crc = self.crc.sum32();","    }\n\n    /// ") if "        let _crc = self.crc.sum32();" in open('/repo/'+W).read() and False else cut(W,"        let _crc = self.crc.sum32();","        _res\n")+"        _res\n"
PUSH="        self.crc.write(content.as_slice());\n        self.content.append(content.as_mut())\n"
FL=cut(WS,"        let remaining = match &mut self.cache {","        self.writer.flush()\n    }")+"        self.writer.flush()\n"
WE=cut(WS,"        match &mut self.cache {\n            &mut FlushCache::None => {\n                self.write_all","        Ok(())\n    }\n}\n")
WR=cut(WS,"        let len = self.writer.write(bytes)?;","    }\n\n    fn flush(")
TW=cut(TSG,"        let timepoint_size = std::mem::size_of::<Timestamp>()","        Ok(())\n    }\n\n    fn read_time")
TR=TSG and (lambda s:(lambda i:s[i:s.index("    }\n}\n\nimpl HasTypeName",i)])(s.index("        let timepoint_size",s.index("fn read_time_series"))))(open('/repo/'+TSG).read())
TM=cut(TI,"        let ids = self.get_series_id_contains_labels(labels.clone())?;","    }\n\n    fn get_series_id_contains_labels")
TC=cut(TI,"        let query_res = labels","    }\n\n    fn get_series_id_by_labels")
TB=cut(TI,"        let key = KvIndexerProcessor::encode_labels(&labels, true);\n        Ok(self","    }\n\n    fn create_index")
TCI=cut(TI,"        let _indexer_id_str","        Ok(())\n    }\n}\n\nimpl HasTypeName")
IC=cut(BK,"        let value = self.get(chunk_identifier.clone())?","    }\n}\n\n/// Wrapper")
DBO=cut(OP,"        let chunk_size_str","    }\n}\n\nimpl Default for DbOpts")
SVO=cut(OP,"        //unwrap matcher.value_of","    }\n}\n\nimpl<'a> fmt::Display")
BW=cut(C,"        if self.remaining == 0 {\n            // if there is no available","    }\n\n    /// How many bit")
AB=cut(C,"        let bstream_len = bstream.bitlen();","    }\n\n    pub fn append_bytes")
WB=cut(C,"        let leading = 64 - nbits;","    }\n\n    pub fn write_one")
RB=cut(C,"        if idx >= self.data.len() {\n            None","    }\n\n    /// Return underlying")
RN=cut(C,"        if self.cursor > self.data.bitlen() {","    }\n\n    /// Set the cursor")
ND=cut(C,"                let timepoint_size =\n","            }\n        }\n    }\n}\n\n/// Stream")
NC=cut(C,"                for _b in &timepoint.timestamp.to_be_bytes()","            }\n            _ => {}")
VL=cut(G,"    let mut v = vec![];\n    for _ in 0..len","}\n\n// Find if")
IR="    return -(1i64 << (nbits - 1)) <= t && t < 1i64 << (nbits - 1);\n"
DT=cut(G,"        let mut bytes = vec_with_len(range / 8);","    }\n}\n\nimpl Iterator")
M=[
# ------------------------------------------------------------------ wal
('m4-gb-concat','',[(W,GB,'''        let checksum = self.crc.sum32();
        let length = self.content.len() as u16;
        [
            &self.seq_id.to_be_bytes()[..],
            &[self.entry_type],
            &length.to_be_bytes(),
            self.content.as_slice(),
            &checksum.to_be_bytes(),
        ]
        .concat()
''')]),
('m4-gb-cap','',[(W,GB,'''        let mut bytes = Vec::with_capacity(self.len());
        bytes.extend(self.seq_id.to_be_bytes().iter());
        bytes.extend(&[self.entry_type]);
        bytes.extend((self.content.len() as u16).to_be_bytes().iter().copied());
        bytes.extend_from_slice(&self.content);
        bytes.extend(self.crc.sum32().to_be_bytes().iter());
        bytes
''')]),
('m4-gb-shift','',[(W,GB,'''        let n = self.content.len();
        let mut bytes = self.seq_id.to_be_bytes().to_vec();
        bytes.push(self.entry_type);
        bytes.push((n >> 8) as u8);
        bytes.push(n as u8);
        bytes.extend_from_slice(&self.content);
        bytes.extend_from_slice(&self.crc.sum32().to_be_bytes());
        bytes
''')]),
('m4-gb-shift-bad','L01',[(W,GB,'''        let n = self.content.len();
        let mut bytes = self.seq_id.to_be_bytes().to_vec();
        bytes.push(self.entry_type);
        bytes.push((n >> 7) as u8);
        bytes.push(n as u8);
        bytes.extend_from_slice(&self.content);
        bytes.extend_from_slice(&self.crc.sum32().to_be_bytes());
        bytes
''')]),
('m4-gb-io','',[(W,GB,'''        use std::io::Write;
        let mut bytes: Vec<u8> = Vec::new();
        let _ = bytes.write_all(&self.seq_id.to_be_bytes());
        let _ = bytes.write_all(&[self.entry_type]);
        let _ = bytes.write_all(&(self.content.len() as u16).to_be_bytes());
        let _ = bytes.write_all(&self.content);
        let _ = bytes.write_all(&self.crc.sum32().to_be_bytes());
        bytes
''')]),
('m4-push-empty','',[(W,PUSH,'''        if content.is_empty() {
            return;
        }
        self.crc.write(&content);
        self.content.append(&mut content);
''')]),
('m4-push-one-bad','L01',[(W,PUSH,'''        if content.len() > 1 {
            self.crc.write(content.as_slice());
        }
        self.content.append(content.as_mut())
''')]),
('m4-push-again-bad','L01',[(W,PUSH,'''        self.content.append(content.as_mut());
        self.crc.write(self.content.as_slice());
''')]),
('m4-fl-take','',[(WS,FL,'''        let pending = match self.cache {
            FlushCache::None => Vec::new(),
            FlushCache::NumBased { ref mut idx, ref mut cache, .. } => {
                *idx = 0;
                std::mem::take(cache)
            }
            FlushCache::TimeBased { ref cache, .. } => std::mem::take(&mut *cache.lock().unwrap()),
            FlushCache::SizeBased { ref mut size, ref mut cache, .. } => {
                *size = 0;
                cache.drain(..).collect()
            }
        };
        for entry in pending.iter() {
            self.write_all(&entry.get_bytes())?;
        }
        self.writer.flush()
''')]),
('m4-fl-one-buffer','',[(WS,"""            for entry in remaining {
                self.write_all(entry.get_bytes().as_slice())?;
            }
""","""            let mut bytes = Vec::new();
            for entry in remaining {
                bytes.extend(entry.get_bytes());
            }
            self.write_all(&bytes)?;
""")]),
('m4-fl-one-buffer-bad','L03',[(WS,"""            for entry in remaining {
                self.write_all(entry.get_bytes().as_slice())?;
            }
""","""            let mut bytes = Vec::new();
            for entry in remaining {
                bytes.extend(entry.get_bytes());
            }
            self.write(&bytes)?;
""")]),
('m4-fl-tryfor','',[(WS,"""            for entry in remaining {
                self.write_all(entry.get_bytes().as_slice())?;
            }
""","""            remaining
                .into_iter()
                .try_for_each(|entry| self.write_all(&entry.get_bytes()))?;
""")]),
('m4-fl-rev-bad','L02',[(WS,"            for entry in remaining {","            for entry in remaining.into_iter().rev() {")]),
('m4-fl-pop-bad','L02',[(WS,"            for entry in remaining {","            let mut remaining = remaining;\n            while let Some(entry) = remaining.pop() {")]),
('m4-fl-idx-late','',[(WS,"                *idx = 0;\n                let _cache = cache.clone();\n                *cache = Vec::with_capacity(*size);\n                _cache","                let entries = cache.split_off(0);\n                *idx = cache.len();\n                entries")]),
('m4-we-replace','',[(WS,WE,'''        let full = match self.cache {
            FlushCache::None => {
                self.write_all(&entry.get_bytes())?;
                true
            }
            FlushCache::NumBased { limit, ref mut idx, ref mut cache } => {
                cache.push(entry);
                *idx += 1;
                *idx >= limit
            }
            FlushCache::TimeBased { ref cache, .. } => {
                cache.lock().unwrap().push(entry);
                false
            }
            FlushCache::SizeBased { limit, ref mut size, ref mut cache } => {
                *size += entry.len();
                cache.push(entry);
                *size >= limit
            }
        };
        if full {
            self.flush()?;
        }
''')]),
('m4-we-replace-bad','L02',[(WS,WE,'''        let full = match self.cache {
            FlushCache::None => {
                self.write_all(&entry.get_bytes())?;
                true
            }
            FlushCache::NumBased { limit, ref mut idx, ref mut cache } => {
                *idx += 1;
                if *idx < limit {
                    cache.push(entry);
                }
                *idx >= limit
            }
            FlushCache::TimeBased { ref cache, .. } => {
                cache.lock().unwrap().push(entry);
                false
            }
            FlushCache::SizeBased { limit, ref mut size, ref mut cache } => {
                *size += entry.len();
                cache.push(entry);
                *size >= limit
            }
        };
        if full {
            self.flush()?;
        }
''')]),
('m4-we-empty-bad','L02',[(WS,"        match &mut self.cache {\n            &mut FlushCache::None => {\n                self.write_all","        if entry.content.is_empty() {\n            return Ok(());\n        }\n        match &mut self.cache {\n            &mut FlushCache::None => {\n                self.write_all")]),
('m4-we-flush-ok-bad','L03',[(WS,"                if *idx >= *size {\n                    self.flush()?;","                if *idx >= *size {\n                    self.flush().ok();")]),
('m4-wr-crc-all-bad','L02',[(WS,"        self.crc.write(&bytes[..len]); // update crc","        self.crc.write(bytes);")]),
('m4-wr-crc-first-bad','L02',[(WS,WR,'''        self.crc.write(bytes);
        self.writer.write(bytes)
''')]),
('m4-wr-map','',[(WS,WR,'''        let Segment { writer, crc, .. } = self;
        writer.write(bytes).map(|written| {
            crc.write(&bytes[..written]);
            written
        })
''')]),
('m4-close-order-bad','L02',[(WS,"        self.flush()?; // entries still in cache\n        let _crc = self.crc.finish();","        let _crc = self.crc.finish();\n        self.flush()?; // entries still in cache")]),
('m4-close-le-bad','L02',[(WS,"self.write_all(&_crc.to_be_bytes())?; // append crc result","self.write_all(&_crc.to_le_bytes())?; // append crc result")]),
('m4-new-write-bad','L03',[(WS,"        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;","        let _ = writer.write(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;")]),
# ------------------------------------------------------------- tikv storage
('m4-tw-match','',[(TSG,TW,'''        let point = KvStorageProcessor::encode_time_point(timestamp, value)?;
        let key = [
            self.storage_identifier.as_slice(),
            &time_series_id.to_be_bytes()[..],
        ]
        .concat();
        let stored = match self.client.get(key.clone())? {
            None => point,
            Some(stored) => {
                let last = KvStorageProcessor::decode_time_point(&stored[stored.len() - 16..])?;
                if timestamp <= last.timestamp {
                    return Err(MonolithErr::InternalErr(
                        "Try to store a earlier time stamp".into(),
                    ));
                }
                [stored, point].concat()
            }
        };
        self.client.set(key, stored)?;
''')]),
('m4-tw-default','',[(TSG,TW,'''        let mut key = self.storage_identifier.clone();
        key.extend_from_slice(&time_series_id.to_be_bytes());
        let mut stored = self.client.get(key.clone())?.unwrap_or_default();
        if let Some(last) = stored.chunks(16).last() {
            if KvStorageProcessor::decode_time_point(last)?.timestamp >= timestamp {
                return Err(MonolithErr::InternalErr(
                    "Try to store a earlier time stamp".into(),
                ));
            }
        }
        stored.extend(KvStorageProcessor::encode_time_point(timestamp, value)?);
        self.client.set(key, stored)?;
''')]),
('m4-tw-first-bad','W02',[(TSG,TW,'''        let mut key = self.storage_identifier.clone();
        key.extend_from_slice(&time_series_id.to_be_bytes());
        let mut stored = self.client.get(key.clone())?.unwrap_or_default();
        if let Some(last) = stored.chunks(16).last() {
            if KvStorageProcessor::decode_time_point(last)?.timestamp >= timestamp {
                return Ok(());
            }
        }
        stored.extend(KvStorageProcessor::encode_time_point(timestamp, value)?);
        self.client.set(key, stored)?;
''')]),
('m4-tw-key32-bad','W02',[(TSG,TW,TW.replace("time_series_id.to_be_bytes()","(time_series_id as u32).to_be_bytes()")),(TSG,TR,TR.replace("time_series_id.to_be_bytes()","(time_series_id as u32).to_be_bytes()"))]),
('m4-tr-match','',[(TSG,TR,'''        let mut key = self.storage_identifier.clone();
        key.extend_from_slice(&time_series_id.to_be_bytes());
        let stored = self.client.get(key)?.ok_or(MonolithErr::NotFoundErr)?;
        let series = stored
            .chunks(16)
            .map(KvStorageProcessor::decode_time_point)
            .collect::<Result<Vec<TimePoint>>>()?;
        let (first, last) = match (series.first(), series.last()) {
            (Some(first), Some(last)) => (first.timestamp, last.timestamp),
            _ => return Err(MonolithErr::NotFoundErr),
        };
        if end_time < first || last < start_time {
            return Err(MonolithErr::OutOfRangeErr(first, last));
        }
        Self::trim_time_series(series, start_time, end_time)
''')]),
('m4-tr-inline','',[(TSG,TR,'''        let mut key = self.storage_identifier.clone();
        key.extend_from_slice(&time_series_id.to_be_bytes());
        match self.client.get(key)? {
            None => Err(MonolithErr::NotFoundErr),
            Some(stored) => {
                let mut series = Vec::with_capacity(stored.len() / 16);
                for raw in stored.chunks(16) {
                    let point = KvStorageProcessor::decode_time_point(raw)?;
                    if point.timestamp < start_time || point.timestamp > end_time {
                        continue;
                    }
                    series.push(point);
                }
                Ok(series)
            }
        }
''')]),
('m4-tr-inline-bad','R01',[(TSG,TR,'''        let mut key = self.storage_identifier.clone();
        key.extend_from_slice(&time_series_id.to_be_bytes());
        match self.client.get(key)? {
            None => Err(MonolithErr::NotFoundErr),
            Some(stored) => {
                let mut series = Vec::with_capacity(stored.len() / 16);
                for raw in stored.chunks_exact(16).skip(1) {
                    let point = KvStorageProcessor::decode_time_point(raw)?;
                    if point.timestamp < start_time || point.timestamp > end_time {
                        continue;
                    }
                    series.push(point);
                }
                Ok(series)
            }
        }
''')]),
('m4-tr-break-bad','R01',[(TSG,TR,'''        let mut key = self.storage_identifier.clone();
        key.extend_from_slice(&time_series_id.to_be_bytes());
        match self.client.get(key)? {
            None => Err(MonolithErr::NotFoundErr),
            Some(stored) => {
                let mut series = Vec::new();
                for raw in stored.chunks(16) {
                    let point = KvStorageProcessor::decode_time_point(raw)?;
                    if point.timestamp < start_time {
                        break;
                    }
                    if point.timestamp <= end_time {
                        series.push(point);
                    }
                }
                Ok(series)
            }
        }
''')]),
('m4-tr-break','',[(TSG,TR,'''        let mut key = self.storage_identifier.clone();
        key.extend_from_slice(&time_series_id.to_be_bytes());
        match self.client.get(key)? {
            None => Err(MonolithErr::NotFoundErr),
            Some(stored) => {
                let mut series = Vec::new();
                for raw in stored.chunks(16) {
                    let point = KvStorageProcessor::decode_time_point(raw)?;
                    if point.timestamp > end_time {
                        // points are stored in time order
                        break;
                    }
                    if point.timestamp >= start_time {
                        series.push(point);
                    }
                }
                Ok(series)
            }
        }
''')]),
# ------------------------------------------------------------- tikv indexer
('m4-tm-loop','',[(TI,TM,'''        let mut found = Vec::new();
        for id in self.get_series_id_contains_labels(labels)? {
            let mut key = KvIndexerProcessor::encode_time_series_id(id).into_bytes();
            if let Some(raw) = self.client.get(self.add_indexer_id(&mut key))? {
                found.push((
                    id,
                    KvIndexerProcessor::decode_labels(String::from_utf8(raw)?, false)?,
                ));
            }
        }
        Ok(found)
''')]),
('m4-tm-loop-bad','R02 R06',[(TI,TM,'''        let mut found = Vec::new();
        for id in self.get_series_id_contains_labels(labels)? {
            let mut key = KvIndexerProcessor::encode_time_series_id(id).into_bytes();
            if let Some(raw) = self.client.get(self.add_indexer_id(&mut key))? {
                if let Ok(text) = String::from_utf8(raw) {
                    found.push((id, KvIndexerProcessor::decode_labels(text, false)?));
                }
            }
        }
        Ok(found)
''')]),
('m4-tm-requested-bad','R02',[(TI,TM,'''        let mut found = Vec::new();
        for id in self.get_series_id_contains_labels(labels.clone())? {
            let mut key = KvIndexerProcessor::encode_time_series_id(id).into_bytes();
            if self.client.get(self.add_indexer_id(&mut key))?.is_some() {
                found.push((id, labels.clone()));
            }
        }
        Ok(found)
''')]),
('m4-tm-lossy-bad','R02 R06',[(TI,"KvIndexerProcessor::decode_labels(String::from_utf8(raw)?, false)?;","KvIndexerProcessor::decode_labels(String::from_utf8_lossy(&raw).into_owned(), false)?;")]),
('m4-tc-loop','',[(TI,TC,'''        let mut lists: Vec<Vec<TimeSeriesId>> = Vec::with_capacity(labels.len());
        for label in labels.vec() {
            let mut key = KvIndexerProcessor::encode_label(label).into_bytes();
            let raw = match self.client.get(self.add_indexer_id(&mut key))? {
                Some(raw) => raw,
                None => return Ok(Vec::new()),
            };
            lists.push(
                raw.chunks(8)
                    .map(|id| TimeSeriesId::from_be_bytes(id.try_into().unwrap()))
                    .collect(),
            );
        }
        intersect_time_series_id_vec(lists)
''')]),
('m4-tc-skip-bad','R02',[(TI,TC,'''        let mut lists: Vec<Vec<TimeSeriesId>> = Vec::with_capacity(labels.len());
        for label in labels.vec() {
            let mut key = KvIndexerProcessor::encode_label(label).into_bytes();
            let raw = match self.client.get(self.add_indexer_id(&mut key))? {
                Some(raw) => raw,
                None => continue,
            };
            lists.push(
                raw.chunks(8)
                    .map(|id| TimeSeriesId::from_be_bytes(id.try_into().unwrap()))
                    .collect(),
            );
        }
        intersect_time_series_id_vec(lists)
''')]),
('m4-tc-le-bad','R02 W06',[(TI,TC,TC.replace("from_be_bytes","from_le_bytes"))]),
('m4-tb-match','',[(TI,TB,'''        let mut key = KvIndexerProcessor::encode_labels(&labels, true).into_bytes();
        match self.client.get(self.add_indexer_id(&mut key))? {
            Some(raw) => Ok(Some(TimeSeriesId::from_be_bytes(
                raw.as_slice().try_into().unwrap(),
            ))),
            None => Ok(None),
        }
''')]),
('m4-tb-first-bad','W04 W06',[(TI,TB,'''        let mut key = KvIndexerProcessor::encode_labels(&labels, false).into_bytes();
        match self.client.get(self.add_indexer_id(&mut key))? {
            Some(raw) => Ok(Some(TimeSeriesId::from_be_bytes(
                raw.as_slice().try_into().unwrap(),
            ))),
            None => Ok(None),
        }
''')]),
('m4-tci-loop','',[(TI,TCI,'''        let id_bytes = time_series_id.to_be_bytes();
        let mut key = KvIndexerProcessor::encode_time_series_id(time_series_id).into_bytes();
        let text = KvIndexerProcessor::encode_labels(&labels, false);
        self.client.set(self.add_indexer_id(&mut key), text.into_bytes())?;
        for label in labels.vec() {
            let mut key = KvIndexerProcessor::encode_label(label).into_bytes();
            let key = self.add_indexer_id(&mut key);
            let mut ids = self.client.get(key.clone())?.unwrap_or_default();
            ids.extend_from_slice(&id_bytes);
            self.client.set(key, ids)?;
        }
        let mut key = KvIndexerProcessor::encode_labels(&labels, true).into_bytes();
        self.client.set(self.add_indexer_id(&mut key), id_bytes.to_vec())?;
''')]),
('m4-tci-loop-bad','W05 W06',[(TI,TCI,'''        let id_bytes = time_series_id.to_be_bytes();
        let mut key = KvIndexerProcessor::encode_time_series_id(time_series_id).into_bytes();
        let text = KvIndexerProcessor::encode_labels(&labels, false);
        self.client.set(self.add_indexer_id(&mut key), text.into_bytes())?;
        for label in labels.vec() {
            let mut key = KvIndexerProcessor::encode_label(label).into_bytes();
            let key = self.add_indexer_id(&mut key);
            let mut ids = self.client.get(key.clone()).unwrap_or_default().unwrap_or_default();
            ids.extend_from_slice(&id_bytes);
            self.client.set(key, ids)?;
        }
        let mut key = KvIndexerProcessor::encode_labels(&labels, true).into_bytes();
        self.client.set(self.add_indexer_id(&mut key), id_bytes.to_vec())?;
''')]),
('m4-tci-foreach-bad','W05',[(TI,TCI,TCI.replace("                .collect::<Result<Vec<()>>>()?;","                .for_each(|_| ());"))]),
('m4-tci-contains-bad','W06',[(TI,TCI,'''        let id_bytes = time_series_id.to_be_bytes();
        let mut key = KvIndexerProcessor::encode_time_series_id(time_series_id).into_bytes();
        let text = KvIndexerProcessor::encode_labels(&labels, false);
        self.client.set(self.add_indexer_id(&mut key), text.into_bytes())?;
        for label in labels.vec() {
            let mut key = KvIndexerProcessor::encode_label(label).into_bytes();
            let key = self.add_indexer_id(&mut key);
            let mut ids = self.client.get(key.clone())?.unwrap_or_default();
            if ids.len() > 1024 {
                ids.truncate(0);
            }
            ids.extend_from_slice(&id_bytes);
            self.client.set(key, ids)?;
        }
        let mut key = KvIndexerProcessor::encode_labels(&labels, true).into_bytes();
        self.client.set(self.add_indexer_id(&mut key), id_bytes.to_vec())?;
''')]),
# ------------------------------------------------------------- backend
('m4-ic-split','',[(BK,IC,'''        let fresh = Uuid::new_v4().as_bytes().to_vec();
        let mut record = match self.get(chunk_identifier.clone())? {
            Some(record) => record,
            None => vec![0u8; 32],
        };
        let at = if is_indexer { 0 } else { 16 };
        record[at..at + 16].copy_from_slice(&fresh);
        self.set(chunk_identifier, record)?;
        Ok(fresh)
''')]),
('m4-ic-concat','',[(BK,IC,'''        let known = self.get(chunk_identifier.clone())?;
        let record = known.unwrap_or_else(|| [0u8; 32].to_vec());
        let (indexer, storage) = record.split_at(16);
        let id = Uuid::new_v4().as_bytes().to_vec();
        let next = if is_indexer {
            [&id[..], storage].concat()
        } else {
            [indexer, &id[..]].concat()
        };
        self.set(chunk_identifier, next).map(|_| id)
''')]),
('m4-ic-concat-bad','D05',[(BK,IC,'''        let known = self.get(chunk_identifier.clone())?;
        let record = known.unwrap_or_else(|| [0u8; 32].to_vec());
        let (indexer, storage) = record.split_at(16);
        let id = Uuid::new_v4().as_bytes().to_vec();
        let next = if is_indexer {
            [&id[..], indexer].concat()
        } else {
            [indexer, &id[..]].concat()
        };
        self.set(chunk_identifier, next).map(|_| id)
''')]),
('m4-ic-derived-bad','D05',[(BK,IC,'''        let known = self.get(chunk_identifier.clone())?;
        let record = known.unwrap_or_else(|| [0u8; 32].to_vec());
        let (indexer, storage) = record.split_at(16);
        let id = chunk_identifier.clone();
        let next = if is_indexer {
            [&id[..], storage].concat()
        } else {
            [indexer, &id[..]].concat()
        };
        self.set(chunk_identifier, next).map(|_| id)
''')]),
('m4-ic-err-bad','D05',[(BK,"        let value = self.get(chunk_identifier.clone())?.unwrap_or({","        let value = self.get(chunk_identifier.clone()).ok().flatten().unwrap_or({")]),
('m4-ic-once-bad','D05',[(BK,"        if is_indexer {\n            let indexer_id","        if is_indexer {\n            if value[16..] != [0u8; 16] {\n                return Ok(value[16..].to_vec());\n            }\n            let indexer_id")]),
# ------------------------------------------------------------- option
('m4-so-contains','',[(OP,SVO,'''        let port: i32 = matchers.value_of(PORT).unwrap().parse()?;
        if !(1024..=65535).contains(&port) {
            return Err(MonolithErr::OptionErr);
        }
        Ok(ServerOpts {
            port,
            worker_num: matchers.value_of(WORKER_NUM).unwrap().parse()?,
            write_path: matchers.value_of(WRITE_PATH).unwrap(),
            read_path: matchers.value_of(READ_PATH).unwrap(),
        })
''')]),
('m4-so-contains-bad','O01',[(OP,SVO,'''        let port: i32 = matchers.value_of(PORT).unwrap().parse()?;
        if !(1024..65535).contains(&port) {
            return Err(MonolithErr::OptionErr);
        }
        Ok(ServerOpts {
            port,
            worker_num: matchers.value_of(WORKER_NUM).unwrap().parse()?,
            write_path: matchers.value_of(WRITE_PATH).unwrap(),
            read_path: matchers.value_of(READ_PATH).unwrap(),
        })
''')]),
('m4-so-u16','',[(OP,SVO,'''        let worker_num = matchers.value_of(WORKER_NUM).unwrap().parse::<usize>()?;
        let port = match matchers.value_of(PORT).unwrap().parse::<i32>()? {
            port if port < 1024 => return Err(MonolithErr::OptionErr),
            port if port > i32::from(u16::max_value()) => return Err(MonolithErr::OptionErr),
            port => port,
        };
        let (write_path, read_path) = (
            matchers.value_of(WRITE_PATH).unwrap(),
            matchers.value_of(READ_PATH).unwrap(),
        );
        Ok(ServerOpts { port, write_path, read_path, worker_num })
''')]),
('m4-so-wrap-bad','O01',[(OP,SVO,'''        let worker_num = matchers.value_of(WORKER_NUM).unwrap().parse::<usize>()?;
        let port = matchers.value_of(PORT).unwrap().parse::<i64>()? as u16 as i32;
        if port < 1024 {
            return Err(MonolithErr::OptionErr);
        }
        let (write_path, read_path) = (
            matchers.value_of(WRITE_PATH).unwrap(),
            matchers.value_of(READ_PATH).unwrap(),
        );
        Ok(ServerOpts { port, write_path, read_path, worker_num })
''')]),
('m4-so-trim','O01',[(OP,"parse::<usize>()?","parse::<usize>().unwrap_or(DEFAULT_WORKER_NUM)")]),
('m4-do-map','',[(OP,DBO,'''        let seconds = matches.value_of(CHUNK_SIZE).unwrap().parse::<u64>()?;
        let text = |name: &str| matches.value_of(name).unwrap().to_string();
        let mut config = DbOpts {
            storage: text(STORAGE_ARG),
            indexer: text(INDEXER_ARG),
            base_dir: PathBuf::from(matches.value_of(FILE_DIR_ARG).unwrap()),
            chunk_size: Duration::new(seconds, 0),
            tikv_config: None,
        };
        if let Some(path) = matches.value_of(TIKV_CONFIG) {
            config.tikv_config = Some(PathBuf::from(path));
        }
        Ok(config)
''')]),
('m4-do-ms-bad','O01',[(OP,DBO,'''        let seconds = matches.value_of(CHUNK_SIZE).unwrap().parse::<u64>()?;
        let text = |name: &str| matches.value_of(name).unwrap().to_string();
        Ok(DbOpts {
            storage: text(STORAGE_ARG),
            indexer: text(INDEXER_ARG),
            base_dir: PathBuf::from(matches.value_of(FILE_DIR_ARG).unwrap()),
            chunk_size: Duration::new(seconds / 1000, (seconds % 1000) as u32 * 1_000_000),
            tikv_config: matches.value_of(TIKV_CONFIG).map(PathBuf::from),
        })
''')]),
('m4-do-both-bad','O01',[(OP,DBO,'''        let seconds = matches.value_of(CHUNK_SIZE).unwrap().parse::<u64>()?;
        let text = |name: &str| matches.value_of(name).unwrap().to_string();
        Ok(DbOpts {
            storage: text(STORAGE_ARG),
            indexer: text(STORAGE_ARG),
            base_dir: PathBuf::from(matches.value_of(FILE_DIR_ARG).unwrap()),
            chunk_size: Duration::from_secs(seconds),
            tikv_config: matches.value_of(TIKV_CONFIG).map(PathBuf::from),
        })
''')]),
# ------------------------------------------------------------- bit stream
('m4-bw-match','',[(C,BW,'''        let bit = if bit { 1u8 } else { 0 };
        if self.remaining == 0 {
            self.data.push(0);
            self.remaining = 8;
        }
        self.remaining -= 1;
        let last = self.data.len() - 1;
        self.data[last] |= bit << self.remaining;
''')]),
('m4-bw-last','',[(C,BW,'''        match self.remaining {
            0 => {
                self.data.push((bit as u8) << 7);
                self.remaining = 7;
            }
            n => {
                self.remaining = n - 1;
                if let Some(last) = self.data.last_mut() {
                    *last |= (bit as u8) << (n - 1);
                }
            }
        }
''')]),
('m4-bw-last-bad','G03',[(C,BW,'''        match self.remaining {
            0 => {
                self.data.push((bit as u8) << 7);
                self.remaining = 7;
            }
            n => {
                self.remaining = n - 1;
                if let Some(last) = self.data.last_mut() {
                    *last |= (bit as u8) << n;
                }
            }
        }
''')]),
('m4-rb-get','',[(C,RB,'''        let byte = *self.data.get(idx)?;
        let unused = if idx + 1 == self.data.len() { self.remaining } else { 0 };
        Some((byte, unused as usize))
''')]),
('m4-rn-early','',[(C,RN,'''        let available = self.data.bitlen().saturating_sub(self.cursor);
        let n = n.min(available);
        let (byte, shift) = (self.cursor / 8, self.cursor % 8);
        for i in 0..(n + 7) / 8 {
            let high = self.data.read_bytes(byte + i).map_or(0, |(b, _)| b) << shift;
            let low = match self.data.read_bytes(byte + i + 1) {
                Some((b, _)) if shift > 0 => b >> (8 - shift),
                _ => 0,
            };
            data[i] = high | low;
        }
        if n % 8 != 0 {
            data[n / 8] &= 0xff << (8 - n % 8);
        }
        self.cursor += n;
        n
''')]),
('m4-rn-early-bad','G05',[(C,RN,'''        let available = self.data.bitlen().saturating_sub(self.cursor);
        let n = n.min(available);
        let (byte, shift) = (self.cursor / 8, self.cursor % 8);
        for i in 0..(n + 7) / 8 {
            let high = self.data.read_bytes(byte + i).map_or(0, |(b, _)| b) << shift;
            let low = match self.data.read_bytes(byte + i + 1) {
                Some((b, _)) if shift > 0 => b >> (7 - shift),
                _ => 0,
            };
            data[i] = high | low;
        }
        if n % 8 != 0 {
            data[n / 8] &= 0xff << (8 - n % 8);
        }
        self.cursor += n;
        n
''')]),
('m4-wb-loop','',[(C,WB,'''        let val = u64::from_be_bytes(bytes);
        for i in (0..nbits).rev() {
            self.write((val >> i) & 1 == 1);
        }
''')]),
('m4-ab-loop','',[(C,AB,'''        for i in 0..bstream.bitlen() {
            self.write(bstream.data[i / 8] & (0b10000000 >> (i % 8)) != 0);
        }
''')]),
('m4-ab-loop-bad','',[(C,AB,'''        for i in 0..bstream.data.len() * 8 {
            self.write(bstream.data[i / 8] & (0b10000000 >> (i % 8)) != 0);
        }
''')]),
# ------------------------------------------------------------- codecs
('m4-nd-map','',[(C,ND,'''                Ok(_v
                    .chunks(16)
                    .map(|raw| {
                        let (ts, value) = raw.split_at(8);
                        TimePoint::new(
                            Timestamp::from_be_bytes(ts.try_into().unwrap()),
                            Value::from_be_bytes(value.try_into().unwrap()),
                        )
                    })
                    .collect())
''')]),
('m4-nd-map-bad','G04',[(C,ND,'''                Ok(_v
                    .chunks(16)
                    .map(|raw| {
                        let (ts, value) = raw.split_at(8);
                        TimePoint::new(
                            Timestamp::from_be_bytes(ts.try_into().unwrap()),
                            f32::from_be_bytes(value[..4].try_into().unwrap()) as Value,
                        )
                    })
                    .collect())
''')]),
('m4-nc-extend','',[(C,NC,'''                _v.extend_from_slice(&timepoint.timestamp.to_be_bytes());
                _v.extend(timepoint.value.to_bits().to_be_bytes().iter());
''')]),
('m4-nc-zero-bad','G04',[(C,NC,'''                if timepoint.value != 0.0 {
                    _v.extend_from_slice(&timepoint.timestamp.to_be_bytes());
                    _v.extend(timepoint.value.to_bits().to_be_bytes().iter());
                }
''')]),
('m4-vl','',[(G,VL,'''    vec![0u8; len]
''')]),
('m4-ir-shift','',[(G,IR,'''    let limit = 1i64 << (nbits - 1);
    (-limit..limit).contains(&t)
''')]),
('m4-ir-shift-bad','G01',[(G,IR,'''    let limit = 1i64 << (nbits - 1);
    (-limit..=limit).contains(&t)
''')]),
('m4-dt-match','',[(G,DT,'''        let mut bytes = vec_with_len(range / 8);
        if self.source.read_next_n_bit(&mut bytes, range) != range {
            return None;
        }
        let raw = bytes.as_slice();
        let dod = match range {
            8 => i8::from_be_bytes(raw.try_into().unwrap()) as i64,
            16 => i16::from_be_bytes(raw.try_into().unwrap()) as i64,
            32 => i32::from_be_bytes(raw.try_into().unwrap()) as i64,
            _ => i64::from_be_bytes(raw.try_into().unwrap()),
        };
        self.d += dod;
        Some(self.t + self.d as u64)
''')]),
('m4-dt-match-bad','G01',[(G,DT,'''        let mut bytes = vec_with_len(range / 8);
        if self.source.read_next_n_bit(&mut bytes, range) != range {
            return None;
        }
        let raw = bytes.as_slice();
        let dod = match range {
            8 => i8::from_be_bytes(raw.try_into().unwrap()) as i64,
            16 => u16::from_be_bytes(raw.try_into().unwrap()) as i64,
            32 => i32::from_be_bytes(raw.try_into().unwrap()) as i64,
            _ => i64::from_be_bytes(raw.try_into().unwrap()),
        };
        self.d += dod;
        Some(self.t + self.d as u64)
''')]),
# ------------------------------------------------------------- misc independent bugs
('m4-wtp-dedup-bad','W01',[(D,"        let res = timepoints\n            .into_iter()","        let mut timepoints = timepoints;\n        timepoints.dedup_by_key(|tp| tp.timestamp);\n        let res = timepoints\n            .into_iter()")]),
('m4-sample-abs-bad','S03',[(TP,"            timestamp: s.timestamp as Timestamp,","            timestamp: s.timestamp.abs() as Timestamp,")]),
('m4-ts-dedup-bad','S03 W01',[(TS,"            time_points: t.samples.iter().map(TimePoint::from).collect(),","            time_points: t.samples.iter().filter(|s| !s.value.is_nan()).map(TimePoint::from).collect(),")]),
('m4-ts-empty-label-bad','S03 W01',[(TS,"t.labels.to_vec().iter().map(Label::from).collect()","t.labels.to_vec().iter().filter(|l| !l.value.is_empty()).map(Label::from).collect()")]),
('m4-sled-replace-bad','W02',[(SS,"            let mut current_val_bytes = current_val.to_vec();\n","            let mut current_val_bytes = current_val.to_vec();\n            let n = current_val_bytes.len();\n            if n >= 16 && current_val_bytes[n - 16..n - 8] == timestamp.to_be_bytes() {\n                current_val_bytes.truncate(n - 16);\n            }\n")]),
('m4-sled-skipdup-bad','W02 W01',[(SS,"            let mut current_val_bytes = current_val.to_vec();\n","            let mut current_val_bytes = current_val.to_vec();\n            if current_val_bytes.ends_with(&value) {\n                return Ok(());\n            }\n")]),
('m4-id-reuse-bad','W04',[(CM,"        self.0.fetch_add(1, Ordering::SeqCst)","        let id = self.0.load(Ordering::SeqCst);\n        self.0.store((id + 1) % u64::from(u32::max_value()), Ordering::SeqCst);\n        id")]),
('m4-hash-cache-bad','E01',[(LB,"        for label in self.0.iter() {\n            label.hash(state)\n        }","        self.0.as_ptr().hash(state);\n        for label in self.0.iter() {\n            label.hash(state)\n        }")]),
]
