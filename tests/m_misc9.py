DB='src/db.rs'
U='src/common/utils.rs'
SL="let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;\n            let dir_name = path_str[_slash..].to_string();"
TH='''        thread::spawn(move || loop {
            thread::sleep(Duration::from_millis(chunk_size));
            swap_tx.send(get_current_timestamp());
        });
        let _db = db.clone();
        thread::spawn(move || loop {
            let start_time = swap_rx.recv().unwrap() + 1;
            _db.clone().swap(start_time);
        });
'''
CH="let (swap_tx, swap_rx) = channel::<Timestamp>();\n"
M=[
('m9-name-keeps-slash-bad','D03',[(DB,'.unwrap() + 1;\n            let dir_name','.unwrap();\n            let dir_name')]),
('m9-name-drops-one-bad','D03',[(DB,'.unwrap() + 1;\n            let dir_name','.unwrap() + 2;\n            let dir_name')]),
('m9-name-first-slash-bad','D03',[(DB,SL,SL.replace('rfind','find'))]),
('m9-name-whole-path-bad','D03',[(DB,SL,'let dir_name = path_str.clone();')]),
('m9-name-file-name','',[(DB,'''            let path_str = entry?.path().into_os_string().into_string().unwrap();
            '''+SL,'''            let entry = entry?;
            let path_str = entry.path().into_os_string().into_string().unwrap();
            let dir_name = entry.file_name().into_string().unwrap();''')]),
('m9-name-rsplit','',[(DB,SL,"let dir_name = path_str.rsplit(std::path::MAIN_SEPARATOR).next().unwrap().to_string();")]),
('m9-half-or-bad','D03',[(DB,'storage.is_some() && indexer.is_some()','storage.is_some() || indexer.is_some()')]),
('m9-half-storage-only-bad','D03',[(DB,'storage.is_some() && indexer.is_some()','storage.is_some()')]),
('m9-half-match','',[(DB,'''                    if storage.is_some() && indexer.is_some() {
                        let chunk = Chunk::new(storage.unwrap(), indexer.unwrap(), &chunk_opts);
                        chunk.close();
                        (&mut res).push(Arc::new(chunk));
                    }''','''                    if let (Some(s), Some(i)) = (storage, indexer) {
                        let chunk = Chunk::new(s, i, &chunk_opts);
                        chunk.close();
                        res.push(Arc::new(chunk));
                    }''')]),
('m9-half-ref-and','',[(DB,'storage.is_some() && indexer.is_some()','storage.is_some() & &indexer.is_some()')]),
('m9-rotate-never-bad','D06',[(DB,'            _db.clone().swap(start_time);\n','            let _ = (&_db, start_time);\n')]),
('m9-rotate-no-sleep-bad','D06',[(DB,'            thread::sleep(Duration::from_millis(chunk_size));\n','')]),
('m9-rotate-secs-bad','D06',[(DB,'Duration::from_millis(chunk_size)','Duration::from_secs(chunk_size)')]),
('m9-rotate-half-bad','D06',[(DB,'Duration::from_millis(chunk_size)','Duration::from_millis(chunk_size / 2)')]),
('m9-rotate-early-window-bad','D06',[(DB,'swap_rx.recv().unwrap() + 1','swap_rx.recv().unwrap() - 1')]),
('m9-rotate-same-window-bad','D06',[(DB,'swap_rx.recv().unwrap() + 1','swap_rx.recv().unwrap()')]),
('m9-rotate-one-thread','',[(DB,CH,''),(DB,TH,'''        let _db = db.clone();
        thread::spawn(move || loop {
            thread::sleep(Duration::from_millis(chunk_size));
            let _ = _db.swap(get_current_timestamp() + 1);
        });
''')]),
('m9-rotate-one-thread-late-clock-bad','D06',[(DB,CH,''),(DB,TH,'''        let _db = db.clone();
        thread::spawn(move || loop {
            thread::sleep(Duration::from_millis(1000));
            let _ = _db.swap(get_current_timestamp() + 1);
        });
''')]),
('m9-rotate-send-plus-one','',[(DB,'swap_tx.send(get_current_timestamp());','swap_tx.send(get_current_timestamp() + 1);'),(DB,'swap_rx.recv().unwrap() + 1','swap_rx.recv().unwrap()')]),
('m9-rotate-while-let','',[(DB,'''        thread::spawn(move || loop {
            let start_time = swap_rx.recv().unwrap() + 1;
            _db.clone().swap(start_time);
        });''','''        thread::spawn(move || {
            while let Ok(now) = swap_rx.recv() {
                if let Err(_) = _db.swap(now + 1) {
                    error!("Cannot swap chunk");
                }
            }
        });''')]),
('m9-rotate-for-in','',[(DB,'''        thread::spawn(move || loop {
            let start_time = swap_rx.recv().unwrap() + 1;
            _db.clone().swap(start_time);
        });''','''        thread::spawn(move || {
            for now in swap_rx.iter() {
                let _ = _db.swap(now + 1);
            }
        });''')]),
('m9-rotate-duration','',[(DB,'''        thread::spawn(move || loop {
            thread::sleep(Duration::from_millis(chunk_size));''','''        let pause = Duration::from_millis(chunk_size);
        thread::spawn(move || loop {
            thread::sleep(pause);''')]),
('m9-rotate-helper','',[(DB,TH,'''        Self::start_rotation(db.clone(), chunk_size);
'''),(DB,CH,''),(DB,'''    /// Check if there is a metadata file in base_dir.''','''    fn start_rotation(db: Arc<MonolithDb<S, I>>, chunk_size: u64) {
        let (swap_tx, swap_rx) = channel::<Timestamp>();
        thread::spawn(move || loop {
            thread::sleep(Duration::from_millis(chunk_size));
            swap_tx.send(get_current_timestamp());
        });
        thread::spawn(move || loop {
            let start_time = swap_rx.recv().unwrap() + 1;
            db.swap(start_time);
        });
    }

    /// Check if there is a metadata file in base_dir.''')]),
('m9-query-empty-bad','R05',[(DB,'.filter(|o| o.is_some())','.filter(|o| o.is_none())')]),
('m9-query-filter-map','',[(DB,'''            .map(|k| res.get_key_value(k))
            .filter(|o| o.is_some())
            .map(|o| o.unwrap())
''','''            .filter_map(|k| res.get_key_value(k))
''')]),
('m9-split-from-one-bad','R03',[(U,'for i in 0..ts.len() {','for i in 1..ts.len() {')]),
('m9-split-to-last-bad','R03',[(U,'for i in 0..ts.len() {','for i in 0..ts.len() - 1 {')]),
('m9-tikv-reopen-storage-bad','D05',[('src/storage/tikv_storage.rs','if chunk_opts.is_none()','if chunk_opts.is_some()')]),
('m9-tikv-reopen-indexer-bad','D05',[('src/indexer/tikv_indexer.rs','if chunk_opts.is_none()','if chunk_opts.is_some()')]),
('m9-main-backend-both-bad','O02',[('src/bin/monolith-server.rs','        if db_opts.indexer == TIKV_BACKEND || db_opts.storage == TIKV_BACKEND {\n            warn','        if db_opts.indexer == TIKV_BACKEND && db_opts.storage == TIKV_BACKEND {\n            warn')]),
('m9-main-match','',[('src/bin/monolith-server.rs','        if db_opts.indexer == TIKV_BACKEND || db_opts.storage == TIKV_BACKEND {\n            warn','        if !(db_opts.indexer != TIKV_BACKEND && db_opts.storage != TIKV_BACKEND) {\n            warn')]),
('m9-label-eq-or-bad','E01',[('src/common/label.rs','self.key.eq(&other.key) && self.value.eq(&other.value)','self.key.eq(&other.key) | self.value.eq(&other.value)')]),
('m9-label-eq-refand','',[('src/common/label.rs','self.key.eq(&other.key) && self.value.eq(&other.value)','self.key.eq(&other.key) & &self.value.eq(&other.value)')]),
('m9-wal-max-refused-bad','L02',[('src/wal/segment.rs','entry.content.len() > u16::max_value() as usize','entry.content.len() >= u16::max_value() as usize')]),
('m9-wal-i16-bad','L02',[('src/wal/segment.rs','entry.content.len() > u16::max_value() as usize','entry.content.len() > i16::max_value() as usize')]),
('m9-wal-not-le','',[('src/wal/segment.rs','if entry.content.len() > u16::max_value() as usize {','if !(entry.content.len() <= 65535) {')]),
('m9-wal-ge-next','',[('src/wal/segment.rs','entry.content.len() > u16::max_value() as usize','entry.content.len() >= 0x1_0000')]),
('m9-older-skip-first-bad','R05',[(DB,'''                            .clone()
                            .into_iter()
                            .rev()''','''                            .clone()
                            .into_iter().skip(1)
                            .rev()''')]),
('m9-older-iter-cloned','',[(DB,'''                            .clone()
                            .into_iter()
                            .rev()''','''                            .iter()
                            .rev()
                            .cloned()''')]),
('m9-reopen-drops-bad','D03',[(DB,'                        (&mut res).push(Arc::new(chunk));\n','                        let _ = Arc::new(chunk);\n')]),
('m9-labels-eq-true-bad','E01',[('src/common/label.rs','''            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
                return false;''','''            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
                return true;''')]),
('m9-wal-time-dropped-bad','L02',[('src/wal/segment.rs','                cache.lock().unwrap().push(entry);\n','                let _ = (&cache, entry);\n')]),
('m9-older-only-dropped-bad','R05',[(DB,'                                res_ref.insert(t.meta_data().clone(), current_val);\n','                                drop(current_val);\n')]),
('m9-query-empty-early','',[(DB,'        //reverse time again before return','        if res.is_empty() {\n            return Ok(Vec::new());\n        }\n        //reverse time again before return')]),
('m9-current-skip-bad','R05',[(DB,'t.time_points().clone().into_iter().rev().collect()','t.time_points().clone().into_iter().skip(1).rev().collect()')]),
('m9-rotate-no-send-bad','D06',[(DB,'            swap_tx.send(get_current_timestamp());\n','            let _ = &swap_tx;\n')]),
('m9-list-gorilla-bad','G04',[('src/compaction/mod.rs','                    compator.compact(&tp);\n','                    let _ = tp;\n')]),
('m9-list-gorilla-foreach','',[('src/compaction/mod.rs','''                for tp in data {
                    compator.compact(&tp);
                }
''','''                data.iter().for_each(|tp| compator.compact(tp));
''')]),
('m9-label-cmp-value-bad','E01',[('src/common/label.rs','self.key.cmp(&other.key)','self.key.cmp(&other.value)')]),
]
