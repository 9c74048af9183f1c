C='src/chunk/chunk.rs'; D='src/db.rs'; U='src/common/utils.rs'
SW="""            let mut current = self.current_chuck.write().unwrap(); //will also block all read util swap finish
            let (_, end_time) = current.start_end_time();
            info!("The old chunk with end time {} is closing", end_time);
            current.close(); //close the stale one
            self.secondary_chunks.write().unwrap().push(current.clone());
            *current = Arc::new(chunk); //crate new one
"""
WT="""        let _c = &self.current_chuck.read().unwrap();
        let (start_time, end_time) = _c.start_end_time();
"""
WP="""        let _c = &self.current_chuck.read().unwrap();
        _c.insert(labels, timepoint)?;
        Ok(())
"""
INS="""        if !self.is_in_range(&timepoint.timestamp) {
            info!("""
QL="            let chunks = &self.secondary_chunks.read().unwrap();\n            for _c in chunks.iter().rev() {\n"
M=[
('k-swap-order','K02',[(D,SW,"            let mut older = self.secondary_chunks.write().unwrap();\n"+SW.replace("self.secondary_chunks.write().unwrap().push","older.push"))]),
('k-reread','K02',[(D,QL,QL+"                if _c.start_end_time().1 > self.current_chuck.read().unwrap().start_end_time().1 { info!(\"overlap\"); }\n")]),
('k-write-via-point','K02',[(D,".map(|tp| _c.insert(labels.clone(), tp))",".map(|tp| self.write_time_point(labels.clone(), tp))")]),
('k-insert-check-closed','K02',[(C,INS,"        if self.locked_closed() { return Err(MonolithErr::OutOfRangeErr(self.start_time, self.end_time)); }\n"+INS),(C,"    pub fn is_closed(&self)","    fn locked_closed(&self) -> bool { let _g = self.mutex.read().unwrap(); self.closed.load(Ordering::SeqCst) }\n    pub fn is_closed(&self)")]),
('k-swap-wait-thread','K02',[(D,SW,SW+"            let cur = self.current_chuck.read().unwrap().clone();\n")]),
('k-count-reversed','K02',[(D,"    fn swap(&self,","    pub fn chunk_num(&self) -> usize {\n        let older = self.secondary_chunks.read().unwrap();\n        let current = self.current_chuck.read().unwrap();\n        if current.is_closed() { older.len() } else { older.len() + 1 }\n    }\n    fn swap(&self,")]),
('k-count-right','',[(D,"    fn swap(&self,","    pub fn chunk_num(&self) -> usize {\n        let current = self.current_chuck.read().unwrap();\n        let older = self.secondary_chunks.read().unwrap();\n        if current.is_closed() { older.len() } else { older.len() + 1 }\n    }\n    fn swap(&self,")]),
('k-count-released','',[(D,"    fn swap(&self,","    pub fn chunk_num(&self) -> usize {\n        let n = { let older = self.secondary_chunks.read().unwrap(); older.len() };\n        let current = self.current_chuck.read().unwrap();\n        if current.is_closed() { n } else { n + 1 }\n    }\n    fn swap(&self,")]),
('k-count-dropped','',[(D,"    fn swap(&self,","    pub fn chunk_num(&self) -> usize {\n        let older = self.secondary_chunks.read().unwrap();\n        let n = older.len();\n        drop(older);\n        let current = self.current_chuck.read().unwrap();\n        if current.is_closed() { n } else { n + 1 }\n    }\n    fn swap(&self,")]),
('k-count-match','K02',[(D,"    fn swap(&self,","    pub fn chunk_num(&self) -> usize {\n        match self.secondary_chunks.read().unwrap().len() {\n            0 => 1,\n            n => n + if self.current_chuck.read().unwrap().is_closed() { 0 } else { 1 },\n        }\n    }\n    fn swap(&self,")]),
('k-try','',[(D,"    fn swap(&self,","    pub fn chunk_num(&self) -> usize {\n        let older = self.secondary_chunks.read().unwrap();\n        let n = match self.current_chuck.try_read() { Ok(c) => if c.is_closed() { 0 } else { 1 }, Err(_) => 1 };\n        older.len() + n\n    }\n    fn swap(&self,")]),
('k-helper','',[(D,SW,"            let mut current = self.current_chuck.write().unwrap();\n            self.retire(&current);\n            *current = Arc::new(chunk);\n"),(D,"    fn swap(&self,","    fn retire(&self, old: &Arc<Chunk<S, I>>) {\n        old.close();\n        self.secondary_chunks.write().unwrap().push(old.clone());\n    }\n    fn swap(&self,")]),
('k-helper-bad','K02',[(D,SW,"            let mut current = self.current_chuck.write().unwrap();\n            self.retire();\n            *current = Arc::new(chunk);\n"),(D,"    fn swap(&self,","    fn retire(&self) {\n        let old = self.current_chuck.read().unwrap().clone();\n        old.close();\n        self.secondary_chunks.write().unwrap().push(old);\n    }\n    fn swap(&self,")]),
('k-join','K02',[(D,WP,"        let _c = self.current_chuck.write().unwrap();\n        let lock = self.pending.clone();\n        let t = thread::spawn(move || { *lock.write().unwrap() += 1; });\n        let _g = self.pending.write().unwrap();\n        t.join().unwrap();\n        _c.insert(labels, timepoint)?;\n        Ok(())\n"),(D,"    options: DbOpts,\n","    options: DbOpts,\n    pending: Arc<RwLock<u64>>,\n"),(D,"            options: ops,\n","            options: ops,\n            pending: Arc::new(RwLock::new(0)),\n")]),
('k-join-ok','',[(D,WP,"        let _c = self.current_chuck.read().unwrap();\n        let lock = self.pending.clone();\n        let t = thread::spawn(move || { *lock.write().unwrap() += 1; });\n        t.join().unwrap();\n        _c.insert(labels, timepoint)?;\n        Ok(())\n"),(D,"    options: DbOpts,\n","    options: DbOpts,\n    pending: Arc<RwLock<u64>>,\n"),(D,"            options: ops,\n","            options: ops,\n            pending: Arc::new(RwLock::new(0)),\n")]),
]
