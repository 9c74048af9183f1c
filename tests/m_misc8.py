"""Small accessors, conversions and builders next to the anchors."""
L='src/common/label.rs'; T='src/common/time_series.rs'; ER='src/error.rs'; CH='src/chunk/chunk.rs'; U='src/common/utils.rs'
SS='src/storage/sled_storage.rs'; TS='src/storage/tikv_storage.rs'; SI='src/indexer/sled_indexer.rs'; TI='src/indexer/tikv_indexer.rs'; BT='src/backend/tikv.rs'; CO='src/common/mod.rs'; SV='src/server.rs'
M=[
('m8-sled-nf-bad','R06',[(ER,'''        MonolithErr::IoError(format!(
            "Cannot start Sled Storage because {}",
            err.to_string()
        ))''','''        match err {
            sled::Error::CollectionNotFound(_) => MonolithErr::NotFoundErr,
            other => MonolithErr::IoError(format!("Cannot start Sled Storage because {}", other.to_string())),
        }''')]),
('m8-sled-msg','',[(ER,'''        MonolithErr::IoError(format!(
            "Cannot start Sled Storage because {}",
            err.to_string()
        ))''','''        let reason = err.to_string();
        MonolithErr::IoError(format!("sled: {}", reason))''')]),
('m8-sled-internal','',[(ER,'''        MonolithErr::IoError(format!(
            "Cannot start Sled Storage because {}",
            err.to_string()
        ))''','''        MonolithErr::InternalErr(err.to_string())''')]),
('m8-utf8-nf-bad','',[(ER,'''    fn from(_: FromUtf8Error) -> Self {
        MonolithErr::ParseErr''','''    fn from(_: FromUtf8Error) -> Self {
        MonolithErr::NotFoundErr''')]),
('m8-parseint-range-bad','R06',[(ER,'''    fn from(_: ParseIntError) -> Self {
        MonolithErr::ParseErr''','''    fn from(_: ParseIntError) -> Self {
        MonolithErr::OutOfRangeErr(0, u64::max_value())''')]),
('m8-ts-finite-bad','S03',[(T,'time_points: t.samples.iter().map(TimePoint::from).collect(),','time_points: t.samples.iter().filter(|s| s.value.is_finite()).map(TimePoint::from).collect(),')]),
('m8-ts-neg-bad','S03',[(T,'time_points: t.samples.iter().map(TimePoint::from).collect(),','time_points: t.samples.iter().filter(|s| !(s.value < 0.0)).map(TimePoint::from).collect(),')]),
('m8-ts-loop','',[(T,'time_points: t.samples.iter().map(TimePoint::from).collect(),','''time_points: {
                let mut points = Vec::with_capacity(t.samples.len());
                for sample in t.samples.iter() {
                    points.push(TimePoint::from(sample));
                }
                points
            },''')]),
('m8-ts-emptylabel-bad','S03',[(T,'meta_data: Labels::from_vec(t.labels.to_vec().iter().map(Label::from).collect()),','meta_data: Labels::from_vec(t.labels.iter().filter(|l| !l.value.is_empty()).map(Label::from).collect()),')]),
('m8-ts-labels','',[(T,'meta_data: Labels::from_vec(t.labels.to_vec().iter().map(Label::from).collect()),','meta_data: t.labels.iter().map(Label::from).fold(Labels::new(), |mut all, l| { all.add(l); all }),')]),
('m8-reply-labels-bad','S03',[(T,'labels: t.0.vec().iter().map(crate::proto::Label::from).collect(),','labels: t.0.vec().iter().filter(|l| !l.key().starts_with("__")).map(crate::proto::Label::from).collect(),')]),
('m8-reply-name-bad','S03',[(T,'labels: t.0.vec().iter().map(crate::proto::Label::from).collect(),','labels: t.0.vec().iter().skip_while(|l| l.value().is_empty()).map(crate::proto::Label::from).collect(),')]),
('m8-reply-samples-bad','S03',[(T,'samples: t.1.iter().map(Sample::from).collect(),\n            unknown_fields: Default::default(),\n            cached_size: Default::default(),\n        }\n    }\n}\n\nimpl From<&crate::proto::TimeSeries>','samples: t.1.iter().take(11_000).map(Sample::from).collect(),\n            unknown_fields: Default::default(),\n            cached_size: Default::default(),\n        }\n    }\n}\n\nimpl From<&crate::proto::TimeSeries>')]),
('m8-fkv-trim-bad','W06',[(L,'''            key: key.to_string(),
            value: value.to_string(),''','''            key: key.to_string(),
            value: value.trim_end().to_string(),''')]),
('m8-fkv-into','',[(L,'''        Label {
            key: key.to_string(),
            value: value.to_string(),
        }
    }

    pub fn key_value''','''        Label::new(key.into(), String::from(value))
    }

    pub fn key_value''')]),
('m8-labels-sort-value-bad','W04',[(L,'self.0.sort();','self.0.sort_by(|a, b| a.value.cmp(&b.value));')]),
('m8-labels-sort-len-bad','W04',[(L,'self.0.sort();','self.0.sort_by_key(|l| l.key.len());')]),
('m8-labels-sort-key','',[(L,'self.0.sort();','self.0.sort_by(|a, b| a.key.cmp(&b.key));')]),
('m8-labels-sort-key2','',[(L,'self.0.sort();','self.0.sort_by_key(|l| l.key.clone());')]),
('m8-labels-sort-rev','',[(L,'self.0.sort();','self.0.sort_by(|a, b| b.cmp(a));')]),
('m8-labels-add-dedup-bad','',[(L,'self.0.push(label)','''if self.0.iter().all(|l| l.value != label.value) {
            self.0.push(label)
        }''')]),
('m8-labels-add-front-bad','',[(L,'self.0.push(label)','self.0.insert(0, label)')]),
('m8-labels-from-vec-dedup-bad','',[(L,'''    pub fn from_vec(label_vec: Vec<Label>) -> Labels {
        Labels(label_vec)''','''    pub fn from_vec(mut label_vec: Vec<Label>) -> Labels {
        label_vec.dedup_by(|a, b| a.value == b.value);
        Labels(label_vec)''')]),
('m8-eq-zip','',[(L,'''        for i in 0..self.len() {
            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
                return false;
            }
        }
        true''','''        self.0.iter().zip(&other.0).all(|(a, b)| a == b)''')]),
('m8-eq-set-bad','E01',[(L,'''        for i in 0..self.len() {
            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
                return false;
            }
        }
        true''','''        self.0.iter().all(|a| other.0.contains(a))''')]),
('m8-tn-storage-bad','D01',[(TS,'"TiKvStorage"','"SledStorage"'),]),
('m8-tn-indexer-bad','D01',[(TI,'"TiKvIndexer"','"SledIndexer"'),]),
('m8-tn-rename','',[(TI,'"TiKvIndexer"','"TiKvIndex"'),]),
('m8-yaml-default-bad','O02',[(BT,'let config_file: TiKvBackendConfigFile = serde_yaml::from_slice(content.as_slice())?;','let config_file: TiKvBackendConfigFile = serde_yaml::from_slice(content.as_slice()).unwrap_or_default();')]),
('m8-yaml-direct','',[(BT,'''        let config_file: TiKvBackendConfigFile = serde_yaml::from_slice(content.as_slice())?;
        Ok(config_file)''','''        serde_yaml::from_slice(&content).map_err(Into::into)''')]),
('m8-read-default-bad','',[(BT,'let content = read(filepath)?;','let content = read(filepath).unwrap_or_default();')]),
('m8-gct-secs-bad','D06',[(U,'.as_millis()','.as_secs()')]),
('m8-close-store-bad','D06',[(CH,'self.closed.store(true','self.closed.store(false')]),
('m8-idx-id-suffix','',[(TI,'''        let mut res = self.indexer_identifier.clone();
        res.append(key);
        res''','''        let mut res = key.clone();
        res.extend_from_slice(&self.indexer_identifier);
        res''')]),
('m8-idx-id-short-bad','D05',[(TI,'let mut res = self.indexer_identifier.clone();','let mut res = self.indexer_identifier[..4].to_vec();')]),
('m8-idx-id-none-bad','D05',[(TI,'let mut res = self.indexer_identifier.clone();','let mut res = Vec::new();')]),
('m8-idx-id-concat','',[(TI,'''        let mut res = self.indexer_identifier.clone();
        res.append(key);
        res''','''        [self.indexer_identifier.as_slice(), key.as_slice()].concat()''')]),
('m8-val16-bad','D05',[(TS,'let storage_identifier = Vec::from(&val[16..]);','let storage_identifier = Vec::from(&val[..16]);')]),
('m8-val16','',[(TS,'let storage_identifier = Vec::from(&val[16..]);','let (_, id) = val.split_at(16);\n            let storage_identifier = id.to_vec();')]),
('m8-read-none-ok','',[(TS,'''        if chunk_opts.is_none() {
            return Ok(None);
        }
        let client = self.backend_builder.get_instance()?;
        if let Some(val) = client.get(chunk_opts.unwrap().identifier.clone())? {''','''        let opts = match chunk_opts {
            None => return Ok(None),
            Some(opts) => opts,
        };
        let client = self.backend_builder.get_instance()?;
        if let Some(val) = client.get(opts.identifier.clone())? {''')]),
('m8-read-err-bad','D03',[(TS,'if let Some(val) = client.get(chunk_opts.unwrap().identifier.clone())? {','if let Ok(Some(val)) = client.get(chunk_opts.unwrap().identifier.clone()) {')]),
('m8-sled-ro-dir-bad','D03',[(SS,'let config = sled::ConfigBuilder::default().path(dir).read_only(true);','let config = sled::ConfigBuilder::default().path(dir.join("storage")).read_only(true);')]),
('m8-sled-tmp-bad','D03',[(SS,'let config = sled::ConfigBuilder::default().path(dir).read_only(true);','let config = sled::ConfigBuilder::default().path(dir).read_only(true).temporary(true);')]),
('m8-sled-rw','',[(SS,'''        let config = sled::ConfigBuilder::default().path(dir).read_only(true);
        Ok(Some(SledStorage {
            storage: sled::Db::start(config.build())?,
        }))''','''        Ok(Some(SledStorage::new(dir)?))''')]),
('m8-get-none-bad','R06',[(SS,'''        match tree.get(key_name)? {
            None => Err(NotFoundErr),''','''        match tree.get(key_name).unwrap_or(None) {
            None => Err(NotFoundErr),''')]),
('m8-idgen-start','',[(CH,'id_generator: IdGenerator::new(1)','id_generator: IdGenerator::new(100)')]),
('m8-idgen-sub','',[(CO,'self.0.fetch_add(1, Ordering::SeqCst)','self.0.fetch_add(3, Ordering::Relaxed)')]),
('m8-idgen-max-bad','W04',[(CO,'self.0.fetch_add(1, Ordering::SeqCst)','self.0.fetch_max(1, Ordering::SeqCst)')]),
('m8-idgen-store-bad','W04',[(CO,'self.0.fetch_add(1, Ordering::SeqCst)','{ let id = self.0.load(Ordering::SeqCst); self.0.store(id + 1, Ordering::SeqCst); id & 0xffff }')]),
]
