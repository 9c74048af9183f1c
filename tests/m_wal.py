S='src/wal/segment.rs'; E='src/wal/mod.rs'
LIM="        if entry.content.len() > u16::max_value() as usize {"
NUM="""                cache.push(entry);
                *idx += 1;
                if *idx >= *size {
                    self.flush()?;
                }
"""
SIZ="""                let entry_len = entry.len();
                cache.push(entry);
                if *size + entry_len >= *limit {
                    self.flush()?;
                } else {
                    *size += entry_len;
                }
"""
FN="""                *idx = 0;
                let _cache = cache.clone();
                *cache = Vec::with_capacity(*size);
                _cache
"""
FS="""                *size = 0;
                let _cache = cache.clone();
                *cache = Vec::with_capacity(limit * AVG_NUM_BYTES_IN_ENTRY);
                _cache
"""
DR="""        if remaining.len() > 0 {
            for entry in remaining {
                self.write_all(entry.get_bytes().as_slice())?;
            }
        }

        self.writer.flush()
"""
IMM="""                self.write_all(entry.get_bytes().as_slice())?;
                self.flush()?;
            }
            &mut FlushCache::NumBased {
"""
CL="""        self.flush()?; // entries still in cache
        let _crc = self.crc.finish();
        self.write_all(&_crc.to_be_bytes())?; // append crc result
        self.flush()?;
"""
GB="""        let _crc = self.crc.sum32();
        let mut _res = Vec::<u8>::from(&self.seq_id.to_be_bytes()[..]);
        _res.push(self.entry_type);
        _res.extend_from_slice(&(self.content.len() as u16).to_be_bytes()[..]);
        _res.append(self.content.clone().as_mut());
        _res.extend_from_slice(&_crc.to_be_bytes()[..]);

        _res
"""
PU="""        self.crc.write(content.as_slice());
        self.content.append(content.as_mut())
"""
WS="""        let len = self.writer.write(bytes)?;
        self.crc.write(&bytes[..len]); // update crc
        Ok(len)
"""
M=[
# L01
('l-len-le','L01',[(E,"&(self.content.len() as u16).to_be_bytes()","&(self.content.len() as u16).to_le_bytes()")]),
('l-seq-be-of-len','L01',[(E,GB,GB.replace("self.seq_id.to_be_bytes()","self.seq_id.swap_bytes().to_be_bytes()"))]),
('l-len-total','L01',[(E,"&(self.content.len() as u16).to_be_bytes()","&(self.len() as u16).to_be_bytes()")]),
('l-type-after','L01',[(E,"        _res.push(self.entry_type);\n        _res.extend_from_slice(&(self.content.len() as u16).to_be_bytes()[..]);\n","        _res.extend_from_slice(&(self.content.len() as u16).to_be_bytes()[..]);\n        _res.push(self.entry_type);\n")]),
('l-type-const','L01',[(E,"_res.push(self.entry_type);","_res.push(EntryType::Default as u8);")]),
('l-crc-after-content','L01',[(E,"        self.crc.write(content.as_slice());\n        self.content.append(content.as_mut())\n","        self.content.append(content.as_mut());\n        self.crc.write(content.as_slice());\n")]),
('l-crc-whole','L01',[(E,"        self.crc.write(content.as_slice());\n        self.content.append(content.as_mut())\n","        self.content.append(content.as_mut());\n        self.crc.write(self.content.as_slice());\n")]),
('l-clone-fresh-crc','L01',[(E,"crc: crc::crc32::Digest::new_with_initial(crc::crc32::IEEE, self.crc.sum32()),","crc: crc::crc32::Digest::new(crc::crc32::IEEE),")]),
('l-clone-koopman','L01',[(E,"new_with_initial(crc::crc32::IEEE, self","new_with_initial(crc::crc32::KOOPMAN, self")]),
('l-clone-type','L01',[(E,"            entry_type: self.entry_type,\n            content: self","            entry_type: 0,\n            content: self")]),
('l-new-castagnoli','L01',[(E,"            entry_type: entry_type as u8,\n            content: vec![],\n            crc: crc::crc32::Digest::new(crc::crc32::IEEE)","            entry_type: entry_type as u8,\n            content: vec![],\n            crc: crc::crc32::Digest::new(crc::crc32::CASTAGNOLI)")]),
('l-len-off','L01',[(E,"8 + 1 + 2 + self.content.len() + 4","8 + 1 + 4 + self.content.len() + 4")]),
('l-len-noncrc','L01',[(E,"8 + 1 + 2 + self.content.len() + 4","8 + 1 + 2 + self.content.len()")]),
('l-too-long','L01 L02',[(S,LIM,"        if entry.len() > u32::max_value() as usize {")]),
('l-too-long-by1','L01 L02',[(S,LIM,"        if entry.content.len() > u16::max_value() as usize + 1 {")]),
('l-push-dedup','L01',[(E,PU,"        if self.content.ends_with(&content) { return; }\n"+PU)]),
('l-push-trunc','L01',[(E,PU,"        content.truncate(u16::max_value() as usize);\n"+PU)]),
# L02
('w-cache-not-cleared','L02',[(S,FN,"                *idx = 0;\n                cache.clone()\n")]),
('w-idx-not-reset','L02',[(S,FN,FN.replace("                *idx = 0;\n",""))]),
('w-size-not-reset','L02',[(S,FS,FS.replace("                *size = 0;\n",""))]),
('w-limit-late','L02',[(S,"if *idx >= *size {","if *idx > *size {")]),
('w-limit-size-late','L02',[(S,"if *size + entry_len >= *limit","if *size >= *limit")]),
('w-limit-early','L02',[(S,"if *idx >= *size {","if *idx + 1 >= *size {")]),
('w-flush-before-push','L02',[(S,NUM,"                *idx += 1;\n                if *idx >= *size {\n                    self.flush()?;\n                } else { cache.push(entry); }\n")]),
('w-size-then-lost','L02',[(S,SIZ,SIZ.replace("                cache.push(entry);\n","").replace("                } else {\n","                } else {\n                    cache.push(entry);\n"))]),
('w-rev','L02',[(S,"for entry in remaining {","for entry in remaining.into_iter().rev() {")]),
('w-skip-empty','L02',[(S,"            for entry in remaining {\n","            for entry in remaining {\n                if entry.content.is_empty() { continue; }\n")]),
('w-skip-first','L02',[(S,"for entry in remaining {","for entry in remaining.into_iter().skip(1) {")]),
('w-only-many','L02',[(S,"if remaining.len() > 0 {","if remaining.len() > 1 {")]),
('w-raw','L02',[(S,"                self.write_all(entry.get_bytes().as_slice())?;\n            }\n        }\n","                self.writer.write_all(entry.get_bytes().as_slice())?;\n            }\n        }\n")]),
('w-raw-imm','L02',[(S,IMM,IMM.replace("self.write_all(entry.get_bytes().as_slice())?;\n                self.flush","self.writer.write_all(entry.get_bytes().as_slice())?;\n                self.flush",1))]),
('w-imm-noflush','L02',[(S,IMM,IMM.replace("                self.flush()?;\n","",1))]),
('w-content-only','L02',[(S,"            for entry in remaining {\n                self.write_all(entry.get_bytes()","            for entry in remaining {\n                self.write_all(entry.content")]),
('w-crc-all','L02',[(S,"self.crc.write(&bytes[..len]);","self.crc.write(bytes);")]),
('w-returns-all','L02 L03',[(S,WS,"        let len = self.writer.write(bytes)?;\n        self.crc.write(&bytes[..len]);\n        Ok(bytes.len())\n")]),
('w-close-crc-early','L02',[(S,CL,"        let _crc = self.crc.finish();\n        self.flush()?;\n        self.write_all(&_crc.to_be_bytes())?;\n        self.flush()?;\n")]),
('w-close-le','L02',[(S,"_crc.to_be_bytes())?","_crc.to_le_bytes())?")]),
('w-close-noflush','L02',[(S,"        self.write_all(&_crc.to_be_bytes())?; // append crc result\n        self.flush()?;\n","        self.write_all(&_crc.to_be_bytes())?; // append crc result\n")]),
('w-close-32','L02',[(S,"self.write_all(&_crc.to_be_bytes())?","self.write_all(&(_crc as u32).to_be_bytes())?")]),
('w-close-no-drain','L02',[(S,CL,"        self.writer.flush()?;\n        let _crc = self.crc.finish();\n        self.write_all(&_crc.to_be_bytes())?;\n        self.writer.flush()?;\n")]),
('w-nofinalflush','L02',[(S,DR,DR.replace("        self.writer.flush()\n","        Ok(())\n"))]),
('w-flush-only-if-any','L02',[(S,DR,"        if remaining.len() > 0 {\n            for entry in remaining {\n                self.write_all(entry.get_bytes().as_slice())?;\n            }\n            self.writer.flush()?;\n        }\n        Ok(())\n")]),
('w-new-limit','L02',[(S,"                    limit,\n                    idx: 0,","                    limit: limit + 1,\n                    idx: 0,")]),
('w-new-crc','L02',[(S,"crc::crc64::Digest::new(crc::crc64::ECMA)","crc::crc64::Digest::new(crc::crc64::ISO)")]),
('w-new-magic-le','L02',[(S,"WAL_MAGIC_NUMBER.to_be_bytes()[..])?;\n        writer","WAL_MAGIC_NUMBER.to_le_bytes()[..])?;\n        writer")]),
('w-time-drop','L02',[(S,"std::mem::replace(&mut *cache.lock().unwrap(), vec![])","{ let mut c = cache.lock().unwrap(); let n = c.len() / 2; c.drain(..n).collect() }")]),
('w-time-two-steps','L02',[(S,"std::mem::replace(&mut *cache.lock().unwrap(), vec![])","{ let c = cache.lock().unwrap().clone(); cache.lock().unwrap().clear(); c }")]),
('w-time-keep','L02',[(S,"std::mem::replace(&mut *cache.lock().unwrap(), vec![])","cache.lock().unwrap().clone()")]),
# L03
('f-write-once','L03',[(S,"            for entry in remaining {\n                self.write_all(entry.get_bytes().as_slice())?;","            for entry in remaining {\n                self.write(entry.get_bytes().as_slice())?;")]),
('f-ignored','L03',[(S,"            for entry in remaining {\n                self.write_all(entry.get_bytes().as_slice())?;","            for entry in remaining {\n                let _ = self.write_all(entry.get_bytes().as_slice());")]),
('f-flush-ignored','L03',[(S,IMM,IMM.replace("                self.flush()?;\n","                let _ = self.flush();\n",1))]),
('f-num-flush-ignored','L03',[(S,NUM,NUM.replace("self.flush()?;","if let Err(_e) = self.flush() {}"))]),
('f-close-ignored','L03',[(S,"self.write_all(&_crc.to_be_bytes())?;","self.write_all(&_crc.to_be_bytes()).ok();")]),
('f-new-ignored','L03',[(S,"        writer.flush()?;\n\n        Ok(Segment","        let _ = writer.flush();\n\n        Ok(Segment")]),
('f-imm-interrupted','L03',[(S,IMM,IMM.replace("                self.write_all(entry.get_bytes().as_slice())?;\n","                if let Err(e) = self.write_all(entry.get_bytes().as_slice()) {\n                    if e.kind() != std::io::ErrorKind::WriteZero { return Err(e.into()); }\n                }\n",1))]),
# benign
('b-gb-rewrite','',[(E,GB,"""        let crc = self.crc.sum32();
        let mut res = Vec::with_capacity(self.len());
        res.extend_from_slice(&self.seq_id.to_be_bytes());
        res.push(self.entry_type);
        let len = self.content.len() as u16;
        res.extend_from_slice(&len.to_be_bytes());
        res.extend(self.content.iter());
        res.extend_from_slice(&crc.to_be_bytes());
        res
""")]),
('b-gb-concat','',[(E,GB,"""        [
            &self.seq_id.to_be_bytes()[..],
            &[self.entry_type][..],
            &(self.content.len() as u16).to_be_bytes()[..],
            self.content.as_slice(),
            &self.crc.sum32().to_be_bytes()[..],
        ].concat()
""")]),
('b-gb-checksum','',[(E,"        let _crc = self.crc.sum32();","        let _crc = crc::crc32::checksum_ieee(self.content.as_slice());")]),
('b-len-order','',[(E,"8 + 1 + 2 + self.content.len() + 4","std::mem::size_of::<u64>() + 7 + self.content.len()")]),
('b-push-extend','',[(E,PU,"        self.crc.write(&content);\n        self.content.extend(content);\n")]),
('b-push-extend-slice','',[(E,"pub fn push(&mut self, mut content","pub fn push(&mut self, content"),(E,PU,"        let bytes = content.as_slice();\n        self.content.extend_from_slice(bytes);\n        self.crc.write(bytes);\n")]),
('b-flush-replace','',[(S,FN,"                *idx = 0;\n                std::mem::replace(cache, Vec::with_capacity(*size))\n"),(S,FS,"                *size = 0;\n                std::mem::take(cache)\n")]),
('b-flush-drain','',[(S,FN,"                *idx = 0;\n                cache.drain(..).collect()\n")]),
('b-flush-loop','',[(S,DR,"        for entry in remaining.iter() {\n            let bytes = entry.get_bytes();\n            self.write_all(&bytes)?;\n        }\n        self.writer.flush()?;\n        Ok(())\n")]),
('b-flush-isempty','',[(S,"if remaining.len() > 0 {","if !remaining.is_empty() {")]),
('b-flush-helper','',[(S,DR,"        self.write_entries(remaining)?;\n        self.writer.flush()\n"),(S,"    /// flush all data and close the file\n","    fn write_entries(&mut self, entries: Vec<Entry>) -> std::io::Result<()> {\n        for e in entries {\n            self.write_all(e.get_bytes().as_slice())?;\n        }\n        Ok(())\n    }\n\n    /// flush all data and close the file\n")]),
('b-flush-try-for-each','',[(S,DR,"        remaining.iter().try_for_each(|e| self.write_all(e.get_bytes().as_slice()))?;\n        self.writer.flush()\n")]),
('b-flush-one-buffer','',[(S,DR,"        let mut buf = Vec::new();\n        for entry in remaining.iter() {\n            buf.extend_from_slice(&entry.get_bytes());\n        }\n        self.write_all(&buf)?;\n        self.writer.flush()\n")]),
('b-num-local','',[(S,NUM,"                cache.push(entry);\n                let n = *idx + 1;\n                *idx = n;\n                let full = n >= *size;\n                if full {\n                    self.flush()?;\n                }\n")]),
('b-num-cachelen','',[(S,"if *idx >= *size {","if cache.len() >= *size {")]),
('b-siz-rewrite','',[(S,SIZ,"                *size += entry.len();\n                cache.push(entry);\n                if *size >= *limit {\n                    self.flush()?;\n                }\n")]),
('b-imm-match','',[(S,IMM,IMM.replace("                self.write_all(entry.get_bytes().as_slice())?;\n                self.flush()?;\n","                let bytes = entry.get_bytes();\n                self.write_all(&bytes)?;\n                if let Err(e) = self.writer.flush() {\n                    return Err(MonolithErr::from(e));\n                }\n"))]),
('b-close-sum','',[(S,CL,"        self.flush()?;\n        let sum = self.crc.finish().to_be_bytes();\n        self.write_all(&sum[..])?;\n        self.flush()?;\n")]),
('b-close-finalflush','',[(S,CL,CL.replace("        self.write_all(&_crc.to_be_bytes())?; // append crc result\n        self.flush()?;","        self.write_all(&_crc.to_be_bytes())?;\n        self.writer.flush()?;"))]),
('b-close-rawsum','',[(S,CL,CL.replace("self.write_all(&_crc","self.writer.write_all(&_crc"))]),
('b-write-match','',[(S,WS,"        match self.writer.write(bytes) {\n            Ok(len) => {\n                let accepted = &bytes[..len];\n                self.crc.write(accepted);\n                Ok(len)\n            }\n            Err(e) => Err(e),\n        }\n")]),
('b-new-order','',[(S,"        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;\n        writer.flush()?;\n","        let magic = WAL_MAGIC_NUMBER.to_be_bytes();\n        writer.write_all(&magic)?;\n        writer.flush()?;\n")]),
('b-too-long','',[(S,LIM,"        let max = u16::max_value() as usize;\n        if max < entry.content.len() {")]),
('b-too-long-stricter','',[(S,LIM,"        if entry.len() > u16::max_value() as usize {")]),
('b-time-swap','',[(S,"std::mem::replace(&mut *cache.lock().unwrap(), vec![])","{ let mut c = cache.lock().unwrap(); let mut v = Vec::new(); std::mem::swap(&mut *c, &mut v); v }")]),
]
