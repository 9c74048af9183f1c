S='src/storage/sled_storage.rs'; T='src/storage/tikv_storage.rs'; G='src/storage/common.rs'
M=[
('st-key-trunc','W02',[(S,"let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);\n        let mut value","let key_name = SledStorage::parse_key_name::<u32>(TIME_SERIES_PREFIX, time_series_id as u32);\n        let mut value")]),
('st-prefix','W02',[(S,"let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);\n        let mut value","let key_name = SledStorage::parse_key_name::<u64>(TIME_POINT_PREFIX, time_series_id);\n        let mut value")]),
('st-overwrite','W02',[(S,"            tree.set(key_name.clone(), current_val_bytes)?;","            tree.set(key_name.clone(), value)?;"),(S,"current_val_bytes.append(&mut value);","current_val_bytes.append(&mut value.clone());")]),
('st-prepend','W02',[(S,"""            current_val_bytes.append(&mut value);
            tree.set(key_name.clone(), current_val_bytes)?;""","""            value.append(&mut current_val_bytes);
            tree.set(key_name.clone(), value)?;""")]),
('st-ignore','W01',[(S,"            tree.set(key_name.clone(), current_val_bytes)?;","            tree.set(key_name.clone(), current_val_bytes).ok();")]),
('st-le','W02',[(S,"let value_bytes = value.to_be_bytes();","let value_bytes = value.to_le_bytes();")]),
('st-swap','W02',[(S,"""        let mut res = Vec::from(&timestamp_bytes[..]);
        res.extend_from_slice(&value_bytes[..]);""","""        let mut res = Vec::from(&value_bytes[..]);
        res.extend_from_slice(&timestamp_bytes[..]);""")]),
('st-f32','W02',[(S,"let value_bytes = value.to_be_bytes();","let value_bytes = (value as f32 as f64).to_be_bytes();")]),
('st-nosort','R01',[(S,"                res.sort_by_key(|point| point.timestamp);\n","")]),
('st-skipbad','R06',[(S,"                    res.push(KvStorageProcessor::decode_time_point(timepoint_bytes)?);","                    if let Ok(p) = KvStorageProcessor::decode_time_point(timepoint_bytes) { res.push(p); }")]),
('st-exact','R06',[(S,"val_vec.chunks(std::mem","val_vec.chunks_exact(std::mem")]),
('st-dedup','R01',[(S,"                res.sort_by_key(|point| point.timestamp);\n","                res.sort_by_key(|point| point.timestamp);\n                res.dedup_by_key(|point| point.timestamp);\n")]),
('st-trim-end','R01',[(G,"point.timestamp <= end_time)","point.timestamp < end_time)")]),
('st-trim-start','R01',[(G,"point.timestamp >= start_time &&","point.timestamp > start_time &&")]),
('st-oor','R01',[(S,"        if series.first().unwrap().timestamp > end_time","        if series.first().unwrap().timestamp >= end_time")]),
('st-oor2','R01',[(S,"series.last().unwrap().timestamp < start_time\n        {\n            return Err(OutOf","series.first().unwrap().timestamp < start_time\n        {\n            return Err(OutOf")]),
('st-notfound','R01',[(S,"            None => Err(NotFoundErr),","            None => Ok(Some(Vec::new())),")]),
('st-swallow-read','R06',[(S,"        let tree: &Tree = &self.storage;\n        let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);\n        match tree.get(key_name)? {","        let tree: &Tree = &self.storage;\n        let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);\n        match tree.get(key_name).unwrap_or(None) {")]),
('st-swallow-write','W02',[(S,"if let Some(current_val) = tree.get(key_name.clone())? {","if let Ok(Some(current_val)) = tree.get(key_name.clone()) {")]),
('st-dec','W02 R01',[(S,"Timestamp::from_be_bytes(timestamp_bytes","Timestamp::from_le_bytes(timestamp_bytes")]),
('tk-key','W02',[(T,"let mut time_series_id_bytes: Vec<u8> = Vec::from(&time_series_id.to_be_bytes()[..]);\n        key.append(&mut time_series_id_bytes);\n        if","let mut time_series_id_bytes: Vec<u8> = Vec::from(&time_series_id.to_be_bytes()[4..]);\n        key.append(&mut time_series_id_bytes);\n        if")]),
('tk-nokey','W02',[(T,"let mut key = self.storage_identifier.clone();\n        let mut time_series_id_bytes: Vec<u8> = Vec::from(&time_series_id.to_be_bytes()[..]);\n        key.append(&mut time_series_id_bytes);\n        if","let mut key = self.chunk_identifier.clone();\n        let mut time_series_id_bytes: Vec<u8> = Vec::from(&time_series_id.to_be_bytes()[..]);\n        key.append(&mut time_series_id_bytes);\n        if")]),
('tk-ignore','W01',[(T,"                self.client.set(key, val)?;","                let _ = self.client.set(key, val);")]),
('tk-drop','W02',[(T,"                val.append(&mut current_value);\n","                val.truncate(timepoint_size * 1024);\n                val.append(&mut current_value);\n")]),
('tk-silent','W01',[(T,"""                return Err(MonolithErr::InternalErr(
                    "Try to store a earlier time stamp".into(),
                ));""","""                return Ok(());""")]),
('tk-oor','R01',[(T,"|| series.last().unwrap().timestamp < start_time","|| series.last().unwrap().timestamp <= start_time")]),
('tk-skip','R06',[(T,"                series.push(KvStorageProcessor::decode_time_point(timepoint_bytes)?);","                match KvStorageProcessor::decode_time_point(timepoint_bytes) { Ok(p) => series.push(p), Err(_) => break }")]),
('tk-empty','R01',[(T,"            Err(MonolithErr::NotFoundErr)","            Ok(Vec::new())")]),
# benign
('b-st-match','',[(S,"""        if let Some(current_val) = tree.get(key_name.clone())? {
            let mut current_val_bytes = current_val.to_vec();
            current_val_bytes.append(&mut value);
            tree.set(key_name.clone(), current_val_bytes)?;
        } else {
            tree.set(key_name.clone(), value)?;
        }
        Ok(())""","""        let mut bytes = match tree.get(&key_name)? {
            Some(v) => v.to_vec(),
            None => Vec::with_capacity(16),
        };
        bytes.extend_from_slice(&value);
        value.clear();
        tree.set(key_name, bytes)?;
        Ok(())""")]),
('b-st-map','',[(S,"""                let mut res: Vec<TimePoint> = Vec::new();
                for timepoint_bytes in
                    val_vec.chunks(std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>())
                {
                    res.push(KvStorageProcessor::decode_time_point(timepoint_bytes)?);
                }""","""                let mut res = val_vec
                    .chunks(16)
                    .map(KvStorageProcessor::decode_time_point)
                    .collect::<Result<Vec<TimePoint>>>()?;""")]),
('b-st-sortby','',[(S,"res.sort_by_key(|point| point.timestamp);","res.sort_by(|a, b| a.timestamp.cmp(&b.timestamp));")]),
('b-st-loop','',[(G,"""        Ok(series
            .into_iter()
            .filter(|point| point.timestamp >= start_time && point.timestamp <= end_time)
            .collect())""","""        let mut res = Vec::new();
        for p in series {
            if p.timestamp < start_time || p.timestamp > end_time {
                continue;
            }
            res.push(p);
        }
        Ok(res)""")]),
('b-st-retain','',[(G,"""        series: Vec<TimePoint>,
        start_time: Timestamp,
        end_time: Timestamp,
    ) -> Result<Vec<TimePoint>> {
        Ok(series
            .into_iter()
            .filter(|point| point.timestamp >= start_time && point.timestamp <= end_time)
            .collect())""","""        series: Vec<TimePoint>,
        start_time: Timestamp,
        end_time: Timestamp,
    ) -> Result<Vec<TimePoint>> {
        let mut series = series;
        series.retain(|p| (start_time..=end_time).contains(&p.timestamp));
        Ok(series)""")]),
('b-st-first','',[(S,"""        if series.first().unwrap().timestamp > end_time
            || series.last().unwrap().timestamp < start_time
        {
            return Err(OutOfRangeErr(
                series.first().unwrap().timestamp,
                series.last().unwrap().timestamp,
            ));
        }""","""        let (first, last) = (series[0].timestamp, series[series.len() - 1].timestamp);
        if first > end_time || last < start_time {
            return Err(OutOfRangeErr(first, last));
        }""")]),
('b-st-format','',[(S,'        format!("{}{}", prefix, key)','        let mut s = String::from(prefix);\n        s.push_str(&key.to_string());\n        s')]),
('b-tk-helper','',[(T,"impl TiKvStorage {}","impl TiKvStorage {\n    fn key(&self, id: TimeSeriesId) -> Vec<u8> {\n        let mut k = self.storage_identifier.clone();\n        k.extend_from_slice(&id.to_be_bytes());\n        k\n    }\n}"),(T,"""        let mut key = self.storage_identifier.clone();
        let mut time_series_id_bytes: Vec<u8> = Vec::from(&time_series_id.to_be_bytes()[..]);
        key.append(&mut time_series_id_bytes);
        if""","""        let key = self.key(time_series_id);
        if"""),(T,"""        let mut key = self.storage_identifier.clone();
        let mut time_series_id_bytes: Vec<u8> = Vec::from(&time_series_id.to_be_bytes()[..]);
        key.append(&mut time_series_id_bytes);

        if""","""        let key = self.key(time_series_id);
        if""")]),
('b-tk-match','',[(T,"""            if last_time_point.timestamp >= timestamp {
                return Err(MonolithErr::InternalErr(
                    "Try to store a earlier time stamp".into(),
                ));
            } else {
                val.append(&mut current_value);
                self.client.set(key, val)?;
            }""","""            if timestamp <= last_time_point.timestamp {
                return Err(MonolithErr::InternalErr("Try to store a earlier time stamp".into()));
            }
            val.append(&mut current_value);
            self.client.set(key, val)?;""")]),
]
