D='src/db.rs'; C='src/chunk/chunk.rs'; SS='src/storage/sled_storage.rs'; SI='src/indexer/sled_indexer.rs'
SWAPMETA="""        if let Err(_) = chunk_opt.write_config_to_dir(chunk_dir.as_path()) {
            error!("Cannot create metadata file for chunk");
            return Err(MonolithErr::InternalErr(
                "Cannot create metadata file for chunk".to_string(),
            ));
        }

        // build storage"""
M=[
('dir-or','D01',[(D,"                || metadata.storage_type","                && metadata.storage_type")]),
('dir-onlyindex','D01',[(D,"""            if metadata.indexer_type != db_metadata.indexer_type
                || metadata.storage_type != db_metadata.storage_type
            {""","""            if metadata.indexer_type != db_metadata.indexer_type {""")]),
('dir-anyerr','D01',[(D,"""            Err(err) if err.kind() == ErrorKind::NotFound => None,
            Err(err) => return Err(err.into()),""","""            Err(_) => None,""")]),
('dir-badjson','D01',[(D,"            let metadata: DbMetadata = serde_json::from_str(content.as_str())?;","            let metadata: DbMetadata = match serde_json::from_str(content.as_str()) { Ok(m) => m, Err(_) => return Ok(()) };")]),
('dir-inplace','D01',[(D,"let tmp_path = base_dir.join(format!(\"{}.tmp\", DB_METADATA_FILENAME));","let tmp_path = base_dir.join(DB_METADATA_FILENAME);")]),
('dir-late','D01',[(D,"""        Self::read_or_create_metadata(&ops.base_dir, &db_metadata)?;
        //read existing data
        let existing_chunk =
            Self::read_existing_chunk(&ops.base_dir, &storage_builder, &indexer_builder)?;
""","""        //read existing data
        let existing_chunk =
            Self::read_existing_chunk(&ops.base_dir, &storage_builder, &indexer_builder)?;
        Self::read_or_create_metadata(&ops.base_dir, &db_metadata)?;
""")]),
('dir-ignored','D01',[(D,"        Self::read_or_create_metadata(&ops.base_dir, &db_metadata)?;","        let _ = Self::read_or_create_metadata(&ops.base_dir, &db_metadata);")]),
('dir-samename','D01',[(D,"            storage_type: I::get_type_name().to_string(),","            storage_type: S::get_type_name().to_string(),")]),
('dir-meta-nosync','D04',[(C,"            writer.get_ref().sync_all()?;\n","")]),
('dir-meta-noflush','D04',[(C,"            writer.flush()?;\n","")]),
('dir-meta-inplace','D04',[(C,"let tmp_path = dir.join(PathBuf::from(format!(\"{}.tmp\", CHUNK_METADATA_FILENAME)));","let tmp_path = dir.join(PathBuf::from(CHUNK_METADATA_FILENAME));")]),
('dir-meta-order','D04',[(C,"""            serde_json::to_writer(&mut writer, &self.clone())?;
            writer.flush()?;
            writer.get_ref().sync_all()?;
            fs::rename(&tmp_path, dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;""","""            fs::rename(&tmp_path, dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;
            serde_json::to_writer(&mut writer, &self.clone())?;
            writer.flush()?;
            writer.get_ref().sync_all()?;""")]),
('dir-meta-ignore','D04',[(C,"            writer.flush()?;\n","            let _ = writer.flush();\n")]),
('dir-meta-def','D04',[(C,"&self.clone())?;","&ChunkOpts::default())?;")]),
('dir-meta-or','D04',[(C,"if self.start_time.is_some() && self.end_time.is_some() {","if self.start_time.is_some() && self.end_time.is_some() && self.start_time < self.end_time {")]),
('dir-swap-metaignore','D04',[(D,SWAPMETA,"        let _ = chunk_opt.write_config_to_dir(chunk_dir.as_path());\n\n        // build storage")]),
('dir-swap-metalate','D04',[(D,SWAPMETA,"        // build storage"),(D,"            *current = Arc::new(chunk); //crate new one\n        }","            *current = Arc::new(chunk); //crate new one\n        }\n        chunk_opt.write_config_to_dir(chunk_dir.as_path())?;")]),
('dir-swap-secs','D06',[(D,"chunk_opt.end_time = Some(start_time + self.options.chunk_size.as_millis() as Timestamp);","chunk_opt.end_time = Some(start_time + self.options.chunk_size.as_secs() as Timestamp);")]),
('dir-swap-twice','D06',[(D,"chunk_opt.end_time = Some(start_time + self.options.chunk_size.as_millis() as Timestamp);","chunk_opt.end_time = Some(start_time + 2 * self.options.chunk_size.as_millis() as Timestamp);")]),
('dir-swap-noclose','D06',[(D,"            current.close(); //close the stale one\n","")]),
('dir-swap-nokeep','D06',[(D,"            self.secondary_chunks.write().unwrap().push(current.clone());\n","")]),
('dir-swap-replace','D06',[(D,"            self.secondary_chunks.write().unwrap().push(current.clone());\n","            *self.secondary_chunks.write().unwrap() = vec![current.clone()];\n")]),
('dir-swap-front','D06',[(D,"self.secondary_chunks.write().unwrap().push(current.clone());","self.secondary_chunks.write().unwrap().insert(0, current.clone());")]),
('dir-swap-cap','D06',[(D,"            self.secondary_chunks.write().unwrap().push(current.clone());\n","            let mut older = self.secondary_chunks.write().unwrap();\n            older.push(current.clone());\n            if older.len() > 64 { older.remove(0); }\n            drop(older);\n")]),
('dir-swap-early','D06',[(D,"        // write metadata into chunk\n        self.storage_builder","        // write metadata into chunk\n        self.current_chuck.read().unwrap().close();\n        self.storage_builder")]),
('dir-swap-opts','D06',[(D,"""            self.indexer_builder.build(
                chunk_dir_str.clone(),
                Some(&chunk_opt),""","""            self.indexer_builder.build(
                chunk_dir_str.clone(),
                Some(&ChunkOpts::default()),""")]),
('dir-swap-samedir','D06',[(D,"""            self.indexer_builder.build(
                chunk_dir_str.clone(),
                Some(&chunk_opt),""","""            self.indexer_builder.build(
                self.options.base_dir.display().to_string(),
                Some(&chunk_opt),""")]),
('dir-swap-swapdir','D03',[(D,"""        let chunk_dir = self.options.base_dir.join(encode_chunk_dir(
            chunk_opt.start_time.unwrap(),
            chunk_opt.end_time.unwrap(),
        ));
        let chunk""","""        let chunk_dir = self.options.base_dir.join(encode_chunk_dir(
            chunk_opt.end_time.unwrap(),
            chunk_opt.start_time.unwrap(),
        ));
        let chunk""")]),
('dir-swap-start','D06',[(D,"        chunk_opt.start_time = Some(start_time);\n        chunk_opt.end_time = Some(start_time + self","        let start_time = get_current_timestamp();\n        chunk_opt.start_time = Some(start_time);\n        chunk_opt.end_time = Some(start_time + self")]),
('dir-new-dropold','D03',[(D,"secondary_chunks: RwLock::new(existing_chunk),","secondary_chunks: RwLock::new(existing_chunk.into_iter().take(8).collect()),")]),
('dir-new-emptyonerr','D03',[(D,"            Self::read_existing_chunk(&ops.base_dir, &storage_builder, &indexer_builder)?;","            Self::read_existing_chunk(&ops.base_dir, &storage_builder, &indexer_builder).unwrap_or_default();")]),
('dir-re-nosort','D03',[(D,"        res.sort();\n","")]),
('dir-re-noclose','D03',[(D,"                        chunk.close();\n","")]),
('dir-re-anyskip','D03',[(D,"                        Err(MonolithErr::NotFoundErr) => continue,\n                        chunk_opts => chunk_opts?,","                        Err(_) => continue,\n                        Ok(chunk_opts) => chunk_opts,")]),
('dir-re-openskip','D03',[(D,"""                    let indexer = indexer_builder
                        .read_from_chunk(&path.join("indexer"), Some(&chunk_opts))?;""","""                    let indexer = match indexer_builder
                        .read_from_chunk(&path.join("indexer"), Some(&chunk_opts)) { Ok(i) => i, Err(_) => continue };""")]),
('dir-re-start','D03',[(D,"chunk_opts.start_time = Some(start_time);","chunk_opts.start_time = Some(end_time);")]),
('dir-re-end','D03',[(D,"Some(if end_time > current_time {","Some(if end_time < current_time {")]),
('dir-re-place','D03',[(D,'&path.join("indexer"), Some','&path.join("index"), Some')]),
('dir-re-both','D03',[(D,'&path.join("indexer"), Some','&path.join("storage"), Some')]),
('dir-re-id','D03',[(D,"                    chunk_opts.start_time = Some(start_time);\n                    // reset","                    chunk_opts = ChunkOpts::default();\n                    chunk_opts.start_time = Some(start_time);\n                    // reset")]),
('dir-re-flatten','D03',[(D,"""            let path_str = entry?.path()""","""            let entry = match entry { Ok(e) => e, Err(_) => continue };
            let path_str = entry.path()""")]),
('dir-re-expired','D03',[(D,"                    chunk_opts.start_time = Some(start_time);\n                    // reset","                    if end_time + 1000 * 3600 * 24 * 365 < current_time { continue; }\n                    chunk_opts.start_time = Some(start_time);\n                    // reset")]),
('dir-cfg-notfound','D03',[(C,"""                if err.kind() == ErrorKind::NotFound {
                    Err(MonolithErr::NotFoundErr)
                } else {
                    Err(err.into())
                }""","""                Err(MonolithErr::NotFoundErr)""")]),
('dir-cmp','D03',[(C,"self.start_time.cmp(&other.start_time)","other.start_time.cmp(&self.start_time)")]),
('dir-sled-where','D03',[(SI,'join("indexer")','join("index")')]),
# benign
('b-dir-helper','',[(D,"""        let chunk_dir = self.options.base_dir.join(encode_chunk_dir(
            chunk_opt.start_time.unwrap(),
            chunk_opt.end_time.unwrap(),
        ));
        let chunk""","""        let chunk_dir = self.dir_of(&chunk_opt);
        let chunk"""),(D,"    fn swap(&self, start_time","""    fn dir_of(&self, o: &ChunkOpts) -> PathBuf {
        let (s, e) = (o.start_time.unwrap_or(0), o.end_time.unwrap_or(0));
        self.options.base_dir.join(encode_chunk_dir(s, e))
    }

    fn swap(&self, start_time""")]),
('b-dir-q','',[(D,SWAPMETA,"""        chunk_opt.write_config_to_dir(&chunk_dir).map_err(|_| MonolithErr::InternalErr("Cannot create metadata file for chunk".to_string()))?;

        // build storage""")]),
('b-dir-prep','',[(D,"""        let chunk = Chunk::<S, I>::new(storage, indexer, &chunk_opt);
        {
            let mut current""","""        let chunk = Arc::new(Chunk::<S, I>::new(storage, indexer, &chunk_opt));
        {
            let mut current"""),(D,"*current = Arc::new(chunk); //crate","let old = std::mem::replace(&mut *current, chunk); let _ = old; //crate")]),
('b-dir-replace','',[(D,"""            self.secondary_chunks.write().unwrap().push(current.clone());
            *current = Arc::new(chunk); //crate new one""","""            let mut older = self.secondary_chunks.write().unwrap();
            let old = std::mem::replace(&mut *current, Arc::new(chunk));
            older.push(old);""")]),
('b-dir-meta-match','',[(D,"""            if metadata.indexer_type != db_metadata.indexer_type
                || metadata.storage_type != db_metadata.storage_type
            {
                return Err(MonolithErr::OptionErr);
            }""","""            let same = metadata.indexer_type == db_metadata.indexer_type
                && metadata.storage_type == db_metadata.storage_type;
            if !same {
                return Err(MonolithErr::OptionErr);
            }""")]),
('b-dir-meta-str','',[(C,"""            let mut writer = BufWriter::new(file);
            serde_json::to_writer(&mut writer, &self.clone())?;
            writer.flush()?;
            writer.get_ref().sync_all()?;""","""            let mut file = file;
            let bytes = serde_json::to_vec(self)?;
            file.write_all(&bytes)?;
            file.sync_all()?;""")]),
('b-dir-meta-early','',[(C,"""        if self.start_time.is_some() && self.end_time.is_some() {
            std::fs""","""        if self.start_time.is_none() || self.end_time.is_none() {
            return Ok(());
        }
        {
            std::fs""")]),
('b-dir-re-match','',[(D,"""                    if storage.is_some() && indexer.is_some() {
                        let chunk = Chunk::new(storage.unwrap(), indexer.unwrap(), &chunk_opts);
                        chunk.close();
                        (&mut res).push(Arc::new(chunk));
                    }""","""                    if let (Some(storage), Some(indexer)) = (storage, indexer) {
                        let chunk = Arc::new(Chunk::new(storage, indexer, &chunk_opts));
                        chunk.close();
                        res.push(chunk);
                    }""")]),
('b-dir-re-min','',[(D,"""Some(if end_time > current_time {
                        current_time
                    } else {
                        end_time
                    });""","""Some(end_time.min(current_time));""")]),
('b-dir-re-name','',[(D,"""            let path_str = entry?.path().into_os_string().into_string().unwrap();
            let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
            let dir_name = path_str[_slash..].to_string();""","""            let entry = entry?;
            let path_str = entry.path().into_os_string().into_string().unwrap();
            let dir_name = entry.file_name().into_string().unwrap();""")]),
('b-dir-re-sortby','',[(D,"        res.sort();\n","        res.sort_by(|a, b| a.cmp(b));\n")]),
('b-dir-re-continue','',[(D,"""            match decode_chunk_dir(dir_name) {
                Ok((start_time, end_time)) => {""","""            let decoded = decode_chunk_dir(dir_name);
            if decoded.is_err() {
                continue;
            }
            match decoded {
                Ok((start_time, end_time)) => {""")]),
('b-dir-split','',[(D,"""            let metadata: DbMetadata = serde_json::from_str(content.as_str())?;
            if metadata""","""            let metadata = serde_json::from_str::<DbMetadata>(&content)?;
            if metadata""")]),
]
