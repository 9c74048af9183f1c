S='src/indexer/sled_indexer.rs'; T='src/indexer/tikv_indexer.rs'
M=[
('ix-order','W05',[(S,"""        // last, as it marks that the whole index is present
        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
""",""),(S,"        // from time series to label set\n","        tree.set(label_key, format!(\"{}\", time_series_id).into_bytes())?;\n        // from time series to label set\n")]),
('ix-noflush','W05',[(S,"        tree.flush()?;\n","")]),
('ix-flush-ignored','W05',[(S,"        tree.flush()?;\n","        tree.flush().ok();\n")]),
('ix-flush-early','W05',[(S,"        tree.flush()?;\n",""),(S,"        // last, as it marks","        tree.flush()?;\n        // last, as it marks")]),
('ix-set-ignored','W05',[(S,"            tree.set(&key, val.into_bytes())?;","            let _ = tree.set(&key, val.into_bytes());")]),
('ix-noid','W05',[(S,"""        tree.set(
            KvIndexerProcessor::encode_time_series_id(time_series_id),
            KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
        )?;
""","")]),
('ix-skip-first','W05',[(S,"            .iter()\n            .map(KvIndexerProcessor::encode_label)","            .iter()\n            .skip(1)\n            .map(KvIndexerProcessor::encode_label)")]),
('ix-overwrite','W06',[(S,"format!(\"{},{}\", val_str, time_series_id)","format!(\"{}\", time_series_id)"),(S,"let val_str = String::from_utf8(AsRef::<[u8]>::as_ref(&val).to_vec())?;\n                    f","let _val_str = String::from_utf8(AsRef::<[u8]>::as_ref(&val).to_vec())?;\n                    f")]),
('ix-prepend','W06',[(S,"format!(\"{},{}\", val_str, time_series_id)","format!(\"{},{}\", time_series_id, val_str)")]),
('ix-sep','W06',[(S,"format!(\"{},{}\", val_str, time_series_id)","format!(\"{};{}\", val_str, time_series_id)")]),
('ix-get-swallow','W06',[(S,"let val = match tree.get(&key)? {","let val = match tree.get(&key).unwrap_or(None) {")]),
('ix-unsorted','W04',[(S,"        time_series_meta.sort();\n","")]),
('ix-prefix-same','W06',[(S,'const ID_PREFIX: &str = "I";','const ID_PREFIX: &str = "L";')]),
('ix-nosep','W04 W06',[(S,"            label_str.push(',');\n",""),(S,"        res.pop(); //remove last ,\n","")]),
('ix-noeq','W06',[(S,'format!("{}={}", label.key(), label.value())','format!("{}{}", label.key(), label.value())')]),
('ix-name-only','W06',[(S,'format!("{}={}", label.key(), label.value())','format!("{}=", label.key())')]),
('ix-rfind','W06',[(S,'pair.find("=")','pair.rfind("=")')]),
('ix-swapkv','W06',[(S,"Label::from_key_value(key, value.as_str())","Label::from_key_value(value.as_str(), key)")]),
('ix-keepeq','W06',[(S,"                s.remove(0);\n","")]),
('ix-skipbad','R02',[(S,"""            let equal_idx = pair.find("=").ok_or(MonolithErr::InternalErr(
                "Cannot parse label data".to_string(),
            ))?;""","""            let equal_idx = match pair.find("=") { Some(i) => i, None => continue };""")]),
('ix-unprefixed-lookup','W06',[(S,".get(KvIndexerProcessor::encode_labels(&labels, true))?",".get(KvIndexerProcessor::encode_labels(&labels, false))?")]),
('ix-none-ignored','R02',[(S,"                None => return Ok(Vec::new()),","                None => {}")]),
('ix-first-label','R02',[(S,"            match self.get_id(label)? {\n                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),","            match self.get_id(label)? {\n                Some(ts) => { ts_vec.push(ts as Vec<TimeSeriesId>); if ts_vec.len() > 3 { break; } }")]),
('ix-parse-skip','R02',[(S,"                res.push(id.parse::<u64>()?);","                if let Ok(v) = id.parse::<u64>() { res.push(v); }")]),
('ix-meta-swallow','R02',[(S,"            let labels_str =\n                self.get(&KvIndexerProcessor::encode_time_series_id(time_series_id))?;","            let labels_str =\n                self.get(&KvIndexerProcessor::encode_time_series_id(time_series_id)).unwrap_or(None);")]),
('ix-meta-bad','R02',[(S,"                let labels = KvIndexerProcessor::decode_labels(labels_str.unwrap(), false)?;\n                res.push((time_series_id, labels))","                if let Ok(labels) = KvIndexerProcessor::decode_labels(labels_str.unwrap(), false) { res.push((time_series_id, labels)) }")]),
('ix-meta-request','R02',[(S,"        let ids = self.get_series_id_contains_labels(labels)?;\n","        let mut labels = labels;\n        labels.pop();\n        let ids = self.get_series_id_contains_labels(labels)?;\n")]),
('ix-idradix','W06',[(S,'tree.set(label_key, format!("{}", time_series_id).into_bytes())?;','tree.set(label_key, format!("{:x}", time_series_id).into_bytes())?;')]),
('it-order','W05',[(T,"""        {
            //Create map between full label set to time series id
            //last, as it marks that the whole index is present
            let key = KvIndexerProcessor::encode_labels(&labels, true);
            self.client.set(
                self.add_indexer_id(key.into_bytes().as_mut()),
                Vec::from(&time_series_id.to_be_bytes()[..]),
            )?;
        }
""",""),(T,"        {\n            //Create Time series id to label map","""        {
            let key = KvIndexerProcessor::encode_labels(&labels, true);
            self.client.set(
                self.add_indexer_id(key.into_bytes().as_mut()),
                Vec::from(&time_series_id.to_be_bytes()[..]),
            )?;
        }
        {
            //Create Time series id to label map""")]),
('it-ignored','W05',[(T,"                .collect::<Result<Vec<()>>>()?;\n        }\n\n        {\n            //Create map","                .for_each(drop);\n        }\n\n        {\n            //Create map")]),
('it-lookup-le','W06',[(T,"Some(TimeSeriesId::from_be_bytes(\n                    v.as_slice()","Some(TimeSeriesId::from_le_bytes(\n                    v.as_slice()")]),
('it-noid','W06',[(T,"            let key = KvIndexerProcessor::encode_time_series_id(time_series_id);\n            self.client.set(\n                self.add_indexer_id(key.into_bytes().as_mut()),","            let key = KvIndexerProcessor::encode_time_series_id(time_series_id);\n            self.client.set(\n                key.into_bytes(),")]),
('it-unwrap-err','R02',[(T,"Ok(self.client.get(key)?.unwrap_or(Vec::new()))","Ok(self.client.get(key).unwrap_or(None).unwrap_or(Vec::new()))")]),
('it-filter','R02',[(T,".map(|key| Ok(self.client.get(key)?.unwrap_or(Vec::new())))",".filter_map(|key| self.client.get(key).transpose())")]),
('it-meta-swallow','R02',[(T,".map(|(id, res)| match res? {\n                Some(raw) => {\n                    let labels = K",".map(|(id, res)| match res.unwrap_or(None) {\n                Some(raw) => {\n                    let labels = K")]),
('it-chunk4','W06',[(T,"val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());","val.append(Vec::from(&(time_series_id as u32).to_be_bytes()[..]).as_mut());")]),
('it-take','R02',[(T,"        ids.iter()\n            // Convert","        ids.iter().take(100)\n            // Convert")]),
# benign
('b-ix-contains','',[(S,"""        for label in labels.vec() {
            match self.get_id(label)? {
                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),
                // no time series has this label
                None => return Ok(Vec::new()),
            }
        }
""","""        for label in labels.vec().iter() {
            let ids = self.get_id(label)?;
            if ids.is_none() {
                return Ok(vec![]);
            }
            ts_vec.push(ids.unwrap());
        }
""")]),
('b-ix-emptylist','',[(S,"                None => return Ok(Vec::new()),","                None => ts_vec.push(Vec::new()),")]),
('b-ix-ids','',[(S,"""            let id_str: Vec<&str> = val_str.split(",").collect();
            let mut res = Vec::new();
            for id in id_str {
                res.push(id.parse::<u64>()?);
            }
            Ok(Some(res))""","""            let res: std::result::Result<Vec<u64>, _> = val_str.split(',').map(|id| id.parse::<u64>()).collect();
            Ok(Some(res?))""")]),
('b-ix-meta','',[(S,"""            if labels_str.is_some() {
                let labels = KvIndexerProcessor::decode_labels(labels_str.unwrap(), false)?;
                res.push((time_series_id, labels))
            }""","""            let labels_str = match labels_str {
                Some(s) => s,
                None => continue,
            };
            res.push((time_series_id, KvIndexerProcessor::decode_labels(labels_str, false)?));""")]),
('b-ix-create','',[(S,"""        let keys: Vec<String> = labels
            .vec()
            .iter()
            .map(KvIndexerProcessor::encode_label)
            .collect();
        for key in keys {
            let val = match tree.get(&key)? {
                None => format!("{}", time_series_id),
                Some(val) => {
                    let val_str = String::from_utf8(AsRef::<[u8]>::as_ref(&val).to_vec())?;
                    format!("{},{}", val_str, time_series_id)
                }
            };
            tree.set(&key, val.into_bytes())?;
        }""","""        for label in labels.vec() {
            let key = KvIndexerProcessor::encode_label(label);
            let mut ids = self.get(&key)?.unwrap_or_default();
            if !ids.is_empty() {
                ids.push(',');
            }
            ids.push_str(&time_series_id.to_string());
            tree.set(key, ids.into_bytes())?;
        }""")]),
('b-ix-join','',[(S,"""        let mut res = String::new();
        for label in time_series_meta.vec() {
            let mut label_str = KvIndexerProcessor::_encode_label(label);
            label_str.push(',');
            res = res.add(label_str.as_str());
        }
        res.pop(); //remove last ,
        if with_prefix {
            res.insert_str(0, LABEL_PREFIX);
        }
        res""","""        let body = time_series_meta
            .vec()
            .iter()
            .map(KvIndexerProcessor::_encode_label)
            .collect::<Vec<String>>()
            .join(",");
        if with_prefix {
            format!("{}{}", LABEL_PREFIX, body)
        } else {
            body
        }"""),(S,"use std::ops::Add;\n","")]),
('b-ix-decode','',[(S,"""            let (key, value_with_equal) = pair.split_at(equal_idx);
            let value = {
                let mut s = String::from(value_with_equal);
                s.remove(0);
                s
            };
            let label = Label::from_key_value(key, value.as_str());
            res.push(label)""","""            res.push(Label::new(
                pair[..equal_idx].to_string(),
                pair[equal_idx + 1..].to_string(),
            ));""")]),
('b-ix-splitn','',[(S,"""            let equal_idx = pair.find("=").ok_or(MonolithErr::InternalErr(
                "Cannot parse label data".to_string(),
            ))?;
            let (key, value_with_equal) = pair.split_at(equal_idx);
            let value = {
                let mut s = String::from(value_with_equal);
                s.remove(0);
                s
            };
            let label = Label::from_key_value(key, value.as_str());
            res.push(label)""","""            let mut it = pair.splitn(2, '=');
            let key = it.next().unwrap_or("");
            let value = it.next().ok_or(MonolithErr::InternalErr(
                "Cannot parse label data".to_string(),
            ))?;
            res.push(Label::from_key_value(key, value));""")]),
('b-it-loop','',[(T,"""            labels
                .vec()
                .iter()
                .map(|label| {
                    self.add_indexer_id(
                        KvIndexerProcessor::encode_label(label)
                            .into_bytes()
                            .as_mut(),
                    )
                })
                .map(|key| (key.clone(), self.client.get(key.to_vec())))
                .map(|(key, res)| match res? {
                    Some(mut val) => {
                        val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
                        self.client.set(key.clone(), val)
                    }
                    None => self
                        .client
                        .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..])),
                })
                .collect::<Result<Vec<()>>>()?;""","""            for label in labels.vec() {
                let mut raw = KvIndexerProcessor::encode_label(label).into_bytes();
                let key = self.add_indexer_id(&mut raw);
                let mut ids = self.client.get(key.clone())?.unwrap_or_else(Vec::new);
                ids.extend_from_slice(&time_series_id.to_be_bytes());
                self.client.set(key, ids)?;
            }""")]),
('b-it-search','',[(T,"""        let query_res = labels
            .vec()
            .into_iter()
            .map(|label| {
                self.add_indexer_id(
                    KvIndexerProcessor::encode_label(label)
                        .into_bytes()
                        .as_mut(),
                )
            })
            // a label that no time series has is an empty list of ids
            .map(|key| Ok(self.client.get(key)?.unwrap_or(Vec::new())))
            .collect::<Result<Vec<Vec<u8>>>>()?;""","""        let mut query_res = Vec::with_capacity(labels.len());
        for label in labels.vec() {
            let key = self.add_indexer_id(&mut KvIndexerProcessor::encode_label(label).into_bytes());
            match self.client.get(key)? {
                Some(v) => query_res.push(v),
                None => return Ok(vec![]),
            }
        }""")]),
('b-it-meta','',[(T,"""        ids.iter()
            // Convert into keys
            .map(|id| {
                (
                    *id,
                    self.add_indexer_id(
                        KvIndexerProcessor::encode_time_series_id(*id)
                            .into_bytes()
                            .as_mut(),
                    ),
                )
            })
            // Get raw value from db store
            .map(|(id, key)| (id, self.client.get(key)))
            // Convert the value, if there is one, into labels
            .map(|(id, res)| match res? {
                Some(raw) => {
                    let labels = KvIndexerProcessor::decode_labels(String::from_utf8(raw)?, false)?;
                    Ok(Some((id, labels)))
                }
                None => Ok(None),
            })
            // Choose the one with value
            .filter_map(Result::transpose)
            .collect()""","""        let mut res = Vec::new();
        for id in ids {
            let key = self.add_indexer_id(&mut KvIndexerProcessor::encode_time_series_id(id).into_bytes());
            if let Some(raw) = self.client.get(key)? {
                res.push((id, KvIndexerProcessor::decode_labels(String::from_utf8(raw)?, false)?));
            }
        }
        Ok(res)""")]),
]
