G='src/compaction/gorilla.rs'; C='src/compaction/mod.rs'; SV='src/server.rs'; U='src/common/utils.rs'; CO='src/common/mod.rs'; OP='src/common/option.rs'; SS='src/storage/sled_storage.rs'; B='src/bin/monolith-server.rs'
def cut(p,a,b):
    s=open('/repo/'+p).read(); i=s.index(a); return s[i:s.index(b,i)]
GC=cut(G,"        if self.len == 0 {\n            // if 0, means","        self.len += 1;\n        self.t = tp.timestamp;")
GV=cut(G,"        let value_size = std::mem::size_of::<Value>() * 8;\n        if self.len == 0 {","    }\n\n    pub fn as_bytes_vec")
GDV=cut(G,"        let value_size = std::mem::size_of::<Value>() * 8;\n\n        // Decompact the values","    }\n\n    fn decompact_timestamp")
GDT=cut(G,"        if !vec![8, 16, 32, 64].contains(&range)","    }\n}\n\nimpl Iterator for")
GN=cut(G,"        let timestamp_size = std::mem::size_of::<Timestamp>() * 8;\n        let value_size","    }\n}\n\nfn convert_to_u64")
CC=cut(C,"        match self {\n            &mut Compactor::Gorilla(ref mut compator) => {\n                compator.compact(timepoint);","    }\n\n    /// Compact a stream")
CV=cut(C,"        match self {\n            &mut Compactor::Simple => unimplemented!(),","    }\n\n    /// Get bytes vector")
DF=cut(C,"        match t {\n            CompactType::Gorilla => {\n                let t = data.pop()","    }\n\n    pub fn decompact(&mut self)")
DD=cut(C,"        match self {\n            &mut Decompactor::Gorilla(ref decompactor)","    }\n}\n\n/// Stream of bit data")
WB=cut(C,"        let leading = 64 - nbits;","    }\n\n    pub fn write_one")
WR=cut(C,"        if self.remaining == 0 {\n            // if there is no available bit","    }\n\n    /// How many bit")
RD=cut(C,"        if self.cursor > self.data.bitlen() {","    }\n\n    /// Set the cursor")
PR=cut(SV,"        //Convert request content to protobuf coded format","    }\n\n    pub fn query(")
IX=cut(U,"    type TimeSeriesIdMatrix = Vec<Vec<TimeSeriesId>>;","}\n\n/// Read file from dir")
OI=cut(CO,"        let mut res: Vec<TimeSeriesId> = Vec::new();\n        let mut i = 0;","    }\n}\n\npub struct IdGenerator")
BT=cut(B,"    let tikv_backend_singleton = if","    macro_rules! build_storage")
BM=cut(B,"    match db_opts.storage.as_str() {","}\n") if False else None
SO=cut(OP,"        //unwrap matcher.value_of because","    }\n}\n\nimpl<'a> fmt::Display")
DO=cut(OP,"        let chunk_size_str","    }\n}\n\nimpl Default for DbOpts")
EN=cut(SS,"        let timestamp_bytes = timestamp.to_be_bytes();","    }\n}\n\nimpl Decoder")
DE=cut(SS,"        if raw.len() != 16","    }\n}\n\npub struct SledStorageBuilder")
FIRST='''self.bstream.append_bytes(&tp.timestamp.to_be_bytes(), 0);
            self.bstream.append_bytes(&tp.value.to_be_bytes(), 0);'''
def gc(body): return '''        match self.len {
            0 => {
                self.bstream.append_bytes(&tp.timestamp.to_be_bytes(), 0);
                self.bstream.append_bytes(&tp.value.to_be_bytes(), 0);
            }
            1 => {
                let step = (tp.timestamp - self.t) as i64;
                self.bstream.append_bytes(&step.to_be_bytes(), 0);
                self.compact_value(&tp.value);
                self.d = step;
            }
            _ => {
                let step = (tp.timestamp - self.t) as i64;
                let dod = step - self.d;
''' + body + '''                self.compact_value(&tp.value);
            }
        }
'''
TAKE='''        let mut take = |n: usize| -> Option<u64> {
            let mut buf = [0u8; 8];
            if self.source.read_next_n_bit(&mut buf, n) != n {
                return None;
            }
            Some(u64::from_be_bytes(buf) >> (64 - n))
        };
'''
HELP=("    fn decompact_timestamp(&mut self, range: usize)",'''    /// the next `n` bits as a number
    fn take(&mut self, n: usize) -> Option<u64> {
        let mut buf = [0u8; 8];
        if self.source.read_next_n_bit(&mut buf, n) != n {
            return None;
        }
        Some(u64::from_be_bytes(buf) >> (64 - n))
    }

    fn decompact_timestamp(&mut self, range: usize)''')
def dv(fix='if sig == 0 { 64 } else { sig }'): return '''        if self.take(1)? == 0 {
            return Some(self.v);
        }
        if self.take(1)? == 1 {
            let leading = self.take(5)? as u8;
            let sig = self.take(6)? as u8;
            let sig = ''' + fix + ''';
            self.leading = leading;
            self.tailing = 64 - leading - sig;
        }
        let bits = self.take((64 - self.leading - self.tailing) as usize)?;
        self.v = f64::from_bits(self.v.to_bits() ^ (bits << self.tailing));
        Some(self.v)
'''
def nx(ones='4', tbl='''            let step = match ones {
                0 => 0,
                1 => self.take(8)? as i8 as i64,
                2 => self.take(16)? as i16 as i64,
                3 => self.take(32)? as i32 as i64,
                _ => self.take(64)? as i64,
            };
'''): return '''        if self.idx == 0 {
            self.t = self.take(64)?;
            self.v = f64::from_bits(self.take(64)?);
            self.idx = 1;
            return Some(TimePoint::new(self.t, self.v));
        }
        if self.idx == 1 {
            self.d = self.take(64)? as i64;
        } else {
            let mut ones = 0;
            while ones < ''' + ones + ''' {
                if self.take(1)? == 0 {
                    break;
                }
                ones += 1;
            }
''' + tbl + '''            self.d += step;
        }
        self.t = (self.t as i64 + self.d) as u64;
        let value = self.decompact_values()?;
        self.idx += 1;
        Some(TimePoint::new(self.t, value))
'''
def px(rd_ok='''Ok(res) => {
                    let bytes = res.write_to_bytes().unwrap();
                    Response::from_data(snap::raw::Encoder::new().compress_vec(&bytes).unwrap())
                        .with_status_code(200)
                }''', werr='500', rest='404', wr='w.merge_from(&mut input).map_err(MonolithErr::from).and_then(|_| server.write(w))', empty='''Ok(_) if r.compute_size() == 0 => Err(MonolithErr::InternalErr("empty request".to_string())),'''): return '''        let nothing = |code: u16| Response::from_data(Vec::new()).with_status_code(code);
        let mut raw = Vec::new();
        let read = request.as_reader().read_to_end(&mut raw).map_err(MonolithErr::from);
        let body = match read.and_then(|_| {
            snap::raw::Decoder::new()
                .decompress_vec(&raw)
                .map_err(|e| MonolithErr::InternalErr(format!("{}", e)))
        }) {
            Ok(body) => body,
            Err(err) => {
                error!("Cannot read request body, {}", err);
                request.respond(nothing(500));
                return;
            }
        };
        let mut cursor = Cursor::new(body);
        let mut input = CodedInputStream::new(&mut cursor);
        let url = request.url().to_string();
        let answer = if url == server.read_path {
            let mut r = ReadRequest::new();
            let parsed = match r.merge_from(&mut input) {
                Err(err) => Err(MonolithErr::from(err)),
                ''' + empty + '''
                Ok(_) => Ok(()),
            };
            match parsed.and_then(|_| server.query(r)) {
                ''' + rd_ok + '''
                Err(err) => {
                    error!("Error when query against db, {}", err);
                    nothing(500)
                }
            }
        } else if url == server.write_path {
            let mut w = WriteRequest::new();
            let done = ''' + wr + ''';
            if let Err(err) = done {
                error!("Error when write into db, {}", err);
                nothing(''' + werr + ''')
            } else {
                nothing(200)
            }
        } else {
            nothing(''' + rest + ''')
        };
        request.respond(answer);
'''
M=[
# ------------------------------------------------------------ gorilla, writing
('m6-gc-table','',[(G,GC,gc('''                let (flag, free, bits) = if dod == 0 {
                    (0b0000_0000u8, 7, 0)
                } else if in_bit_range(dod, 8) {
                    (0b1000_0000, 6, 8)
                } else if in_bit_range(dod, 16) {
                    (0b1100_0000, 5, 16)
                } else if in_bit_range(dod, 32) {
                    (0b1110_0000, 4, 32)
                } else {
                    (0b1111_0000, 4, 64)
                };
                self.bstream.append_bytes(&[flag], free);
                if bits > 0 {
                    self.bstream.write_bits(dod.to_be_bytes(), bits);
                }
                self.d = step;
'''))]),
('m6-gc-table-bad','G01 G06',[(G,GC,gc('''                let (flag, free, bits) = if dod == 0 {
                    (0b0000_0000u8, 7, 0)
                } else if in_bit_range(dod, 8) {
                    (0b1000_0000, 6, 8)
                } else if in_bit_range(dod, 16) {
                    (0b1100_0000, 5, 16)
                } else if in_bit_range(dod, 32) {
                    (0b1110_0000, 4, 16)
                } else {
                    (0b1111_0000, 4, 64)
                };
                self.bstream.append_bytes(&[flag], free);
                if bits > 0 {
                    self.bstream.write_bits(dod.to_be_bytes(), bits);
                }
                self.d = step;
'''))]),
('m6-gc-ranges','',[(G,GC,gc('''                match dod {
                    0 => self.bstream.write_zero(),
                    -128..=127 => {
                        self.bstream.append_bytes(&[0b10 << 6], 6);
                        self.bstream.write_bits(dod.to_be_bytes(), 8);
                    }
                    -32768..=32767 => {
                        self.bstream.append_bytes(&[0b110 << 5], 5);
                        self.bstream.write_bits(dod.to_be_bytes(), 16);
                    }
                    -2147483648..=2147483647 => {
                        self.bstream.append_bytes(&[0b1110 << 4], 4);
                        self.bstream.write_bits(dod.to_be_bytes(), 32);
                    }
                    _ => {
                        self.bstream.append_bytes(&[0b1111 << 4], 4);
                        self.bstream.write_bits(dod.to_be_bytes(), 64);
                    }
                }
                self.d = step;
'''))]),
('m6-gc-ranges-bad','G01 G06',[(G,GC,gc('''                match dod {
                    0 => self.bstream.write_zero(),
                    -128..=127 => {
                        self.bstream.append_bytes(&[0b10 << 6], 6);
                        self.bstream.write_bits(dod.to_be_bytes(), 8);
                    }
                    -32768..=32768 => {
                        self.bstream.append_bytes(&[0b110 << 5], 5);
                        self.bstream.write_bits(dod.to_be_bytes(), 16);
                    }
                    -2147483648..=2147483647 => {
                        self.bstream.append_bytes(&[0b1110 << 4], 4);
                        self.bstream.write_bits(dod.to_be_bytes(), 32);
                    }
                    _ => {
                        self.bstream.append_bytes(&[0b1111 << 4], 4);
                        self.bstream.write_bits(dod.to_be_bytes(), 64);
                    }
                }
                self.d = step;
'''))]),
('m6-gc-ones','',[(G,GC,gc('''                if dod == 0 {
                    self.bstream.write_zero();
                } else {
                    self.bstream.write_one();
                    if i8::try_from(dod).is_ok() {
                        self.bstream.write_zero();
                        self.bstream.append_bytes(&(dod as i8).to_be_bytes(), 0);
                    } else {
                        self.bstream.write_one();
                        if i16::try_from(dod).is_ok() {
                            self.bstream.write_zero();
                            self.bstream.append_bytes(&(dod as i16).to_be_bytes(), 0);
                        } else {
                            self.bstream.write_one();
                            if i32::try_from(dod).is_ok() {
                                self.bstream.write_zero();
                                self.bstream.append_bytes(&(dod as i32).to_be_bytes(), 0);
                            } else {
                                self.bstream.write_one();
                                self.bstream.append_bytes(&dod.to_be_bytes(), 0);
                            }
                        }
                    }
                }
                self.d = step;
''')),(G,"use std::convert::TryInto;","use std::convert::{TryFrom, TryInto};")]),
('m6-gc-unsigned-bad','G01 G06',[(G,GC,gc('''                if dod == 0 {
                    self.bstream.write_zero();
                } else if u8::try_from(dod).is_ok() {
                    self.bstream.append_bytes(&[0b1000_0000], 6);
                    self.bstream.write_bits(dod.to_be_bytes(), 8);
                } else if in_bit_range(dod, 16) {
                    self.bstream.append_bytes(&[0b1100_0000], 5);
                    self.bstream.write_bits(dod.to_be_bytes(), 16);
                } else if in_bit_range(dod, 32) {
                    self.bstream.append_bytes(&[0b1110_0000], 4);
                    self.bstream.write_bits(dod.to_be_bytes(), 32);
                } else {
                    self.bstream.append_bytes(&[0b1111_0000], 4);
                    self.bstream.write_bits(dod.to_be_bytes(), 64);
                }
                self.d = step;
''')),(G,"use std::convert::TryInto;","use std::convert::{TryFrom, TryInto};")]),
('m6-gc-delta-kept','',[(G,GC,gc('''                if dod == 0 {
                    self.bstream.write_zero();
                } else {
                    if in_bit_range(dod, 8) {
                        self.bstream.append_bytes(&[0b1000_0000], 6);
                        self.bstream.write_bits(dod.to_be_bytes(), 8);
                    } else if in_bit_range(dod, 16) {
                        self.bstream.append_bytes(&[0b1100_0000], 5);
                        self.bstream.write_bits(dod.to_be_bytes(), 16);
                    } else if in_bit_range(dod, 32) {
                        self.bstream.append_bytes(&[0b1110_0000], 4);
                        self.bstream.write_bits(dod.to_be_bytes(), 32);
                    } else {
                        self.bstream.append_bytes(&[0b1111_0000], 4);
                        self.bstream.write_bits(dod.to_be_bytes(), 64);
                    }
                    self.d = step;
                }
'''))]),
('m6-gc-delta-kept-bad','G01 G06',[(G,GC,gc('''                if dod == 0 {
                    self.bstream.write_zero();
                } else if in_bit_range(dod, 32) {
                    if in_bit_range(dod, 8) {
                        self.bstream.append_bytes(&[0b1000_0000], 6);
                        self.bstream.write_bits(dod.to_be_bytes(), 8);
                    } else if in_bit_range(dod, 16) {
                        self.bstream.append_bytes(&[0b1100_0000], 5);
                        self.bstream.write_bits(dod.to_be_bytes(), 16);
                    } else {
                        self.bstream.append_bytes(&[0b1110_0000], 4);
                        self.bstream.write_bits(dod.to_be_bytes(), 32);
                    }
                    self.d = step;
                } else {
                    self.bstream.append_bytes(&[0b1111_0000], 4);
                    self.bstream.write_bits(dod.to_be_bytes(), 64);
                }
'''))]),
('m6-gv-early','',[(G,GV,'''        if self.len == 0 {
            self.bstream.append_bytes(&value.to_be_bytes(), 0);
            self.v = *value;
            self.leading = value.to_bits().leading_zeros() as u8;
            self.tailing = value.to_bits().trailing_zeros() as u8;
            return;
        }
        let x = value.to_bits() ^ self.v.to_bits();
        if x == 0 {
            self.bstream.write_zero();
            return;
        }
        self.bstream.write_one();
        let leading = std::cmp::min(x.leading_zeros(), 31) as u8;
        let trailing = x.trailing_zeros() as u8;
        let reuse = self.len > 1 && self.leading <= leading && self.tailing <= trailing;
        self.bstream.write(!reuse);
        if !reuse {
            self.leading = leading;
            self.tailing = trailing;
            self.bstream.write_bits(u64::from(leading).to_be_bytes(), 5);
            self.bstream
                .write_bits(u64::from(64 - leading - trailing).to_be_bytes(), 6);
        }
        let width = 64 - self.leading - self.tailing;
        self.bstream.write_bits((x >> self.tailing).to_be_bytes(), width);
''')]),
('m6-gv-early-bad','G02',[(G,GV,'''        if self.len == 0 {
            self.bstream.append_bytes(&value.to_be_bytes(), 0);
            self.v = *value;
            return;
        }
        let x = value.to_bits() ^ self.v.to_bits();
        if x == 0 {
            self.bstream.write_zero();
            return;
        }
        self.bstream.write_one();
        let leading = std::cmp::min(x.leading_zeros(), 31) as u8;
        let trailing = x.trailing_zeros() as u8;
        let reuse = self.len > 1 && (self.leading <= leading || self.tailing <= trailing);
        self.bstream.write(!reuse);
        if !reuse {
            self.leading = leading;
            self.tailing = trailing;
            self.bstream.write_bits(u64::from(leading).to_be_bytes(), 5);
            self.bstream
                .write_bits(u64::from(64 - leading - trailing).to_be_bytes(), 6);
        }
        let width = 64 - self.leading - self.tailing;
        self.bstream.write_bits((x >> self.tailing).to_be_bytes(), width);
''')]),
('m6-gv-float-eq-bad','G02',[(G,"            if xord == 0 {\n","            if *value == self.v {\n")]),
('m6-gv-stale-bad','G02',[(G,"                    self.tailing = trailing;\n                    self.leading = leading;\n\n","                    self.tailing = trailing;\n\n")]),
# ------------------------------------------------------------ gorilla, reading
('m6-dv-take','',[(G,GDV,dv()),(G,HELP[0],HELP[1])]),
('m6-dv-take-bad','G01 G02 G06',[(G,GDV,dv('sig')),(G,HELP[0],HELP[1])]),
('m6-nx-take','',[(G,GDV,dv()),(G,HELP[0],HELP[1]),(G,GN,nx())]),
('m6-nx-take-bad','G01 G02 G06',[(G,GDV,dv()),(G,HELP[0],HELP[1]),(G,GN,nx('5'))]),
('m6-nx-take-sign-bad','G01 G06',[(G,GDV,dv()),(G,HELP[0],HELP[1]),(G,GN,nx(tbl='''            let step = match ones {
                0 => 0,
                1 => self.take(8)? as i8 as i64,
                2 => self.take(16)? as i64,
                3 => self.take(32)? as i32 as i64,
                _ => self.take(64)? as i64,
            };
'''))]),
('m6-dt-shift','',[(G,GDT,'''        let mut buf = [0u8; 8];
        match range {
            8 | 16 | 32 | 64 => {
                if self.source.read_next_n_bit(&mut buf, range) != range {
                    return None;
                }
            }
            _ => return None,
        }
        self.d += i64::from_be_bytes(buf) >> (64 - range);
        Some(self.t + self.d as u64)
''')]),
('m6-dt-shift-bad','G01 G06',[(G,GDT,'''        let mut buf = [0u8; 8];
        match range {
            8 | 16 | 32 | 64 => {
                if self.source.read_next_n_bit(&mut buf, range) != range {
                    return None;
                }
            }
            _ => return None,
        }
        self.d += (u64::from_be_bytes(buf) >> (64 - range)) as i64;
        Some(self.t + self.d as u64)
''')]),
# ------------------------------------------------------------ tagged container
('m6-cv-one','',[(C,CV,'''        if let Compactor::Simple = self {
            unimplemented!()
        }
        data.iter().for_each(|tp| self.compact(tp));
        self.get_bytes_vec()
''')]),
('m6-cv-skip-bad','G04',[(C,CV,'''        if let Compactor::Simple = self {
            unimplemented!()
        }
        let mut last = None;
        for tp in data.iter() {
            if last != Some(tp.timestamp) {
                self.compact(tp);
            }
            last = Some(tp.timestamp);
        }
        self.get_bytes_vec()
''')]),
('m6-cc-extend','',[(C,CC,'''        match self {
            Compactor::Gorilla(inner) => inner.compact(timepoint),
            Compactor::None(bytes) => {
                bytes.extend_from_slice(&timepoint.timestamp.to_be_bytes());
                bytes.extend(timepoint.value.to_bits().to_be_bytes().iter());
            }
            Compactor::Simple => {}
        }
''')]),
('m6-cc-extend-bad','G04 G06',[(C,CC,'''        match self {
            Compactor::Gorilla(inner) => inner.compact(timepoint),
            Compactor::None(bytes) => {
                bytes.extend_from_slice(&timepoint.timestamp.to_be_bytes());
                bytes.extend(timepoint.value.to_bits().to_le_bytes().iter());
            }
            Compactor::Simple => {}
        }
''')]),
('m6-df-guard','',[(C,DF,'''        let tag = data.pop().unwrap_or(0);
        let want = match t {
            CompactType::Gorilla => CompactType::Gorilla as u8,
            CompactType::None => CompactType::None as u8,
            CompactType::Simple => {
                return Err(MonolithErr::InternalErr("Not implemented".into()));
            }
        };
        if tag != want {
            return Err(compaction_error!(CompactionTypeDontMatch(want, tag)));
        }
        Ok(if want == 1 {
            Decompactor::Gorilla(GorillaDecompactor::new(Bstream::from_bytes(data)))
        } else {
            Decompactor::None(data)
        })
''')]),
('m6-df-last-bad','G04',[(C,DF,'''        let want = match t {
            CompactType::Gorilla => CompactType::Gorilla as u8,
            CompactType::None => CompactType::None as u8,
            CompactType::Simple => {
                return Err(MonolithErr::InternalErr("Not implemented".into()));
            }
        };
        let tag = data.last().cloned().unwrap_or(want);
        if tag != want {
            return Err(compaction_error!(CompactionTypeDontMatch(want, tag)));
        }
        data.pop();
        Ok(if want == 1 {
            Decompactor::Gorilla(GorillaDecompactor::new(Bstream::from_bytes(data)))
        } else {
            Decompactor::None(data)
        })
''')]),
('m6-dd-map','',[(C,DD,'''        Ok(match self {
            Decompactor::Gorilla(inner) => inner.clone().collect(),
            Decompactor::None(bytes) => bytes
                .chunks(16)
                .map(|b| {
                    let (t, v) = b.split_at(8);
                    TimePoint::new(
                        Timestamp::from_be_bytes(t.try_into().unwrap()),
                        Value::from_be_bytes(v.try_into().unwrap()),
                    )
                })
                .collect(),
        })
''')]),
('m6-dd-once-bad','G04',[(C,DD,'''        Ok(match self {
            Decompactor::Gorilla(inner) => inner.clone().filter(|p| !p.value.is_nan()).collect(),
            Decompactor::None(bytes) => bytes
                .chunks(16)
                .map(|b| {
                    let (t, v) = b.split_at(8);
                    TimePoint::new(
                        Timestamp::from_be_bytes(t.try_into().unwrap()),
                        Value::from_be_bytes(v.try_into().unwrap()),
                    )
                })
                .collect(),
        })
''')]),
# ------------------------------------------------------------ bit streams
('m6-wb-each','',[(C,WB,'''        let value = u64::from_be_bytes(bytes);
        for k in (0..nbits).rev() {
            self.write((value >> k) & 1 == 1);
        }
''')]),
('m6-wb-each-bad','G03 G06',[(C,WB,'''        let value = u64::from_be_bytes(bytes);
        for k in (1..nbits).rev() {
            self.write((value >> k) & 1 == 1);
        }
''')]),
('m6-wb-reversed-bad','G03 G06',[(C,WB,'''        let value = u64::from_be_bytes(bytes);
        for k in 0..nbits {
            self.write((value >> k) & 1 == 1);
        }
''')]),
('m6-wr-short','',[(C,WR,'''        if self.remaining == 0 {
            self.data.push(0);
            self.remaining = 8;
        }
        self.remaining -= 1;
        if bit {
            let last = self.data.len() - 1;
            self.data[last] |= 1 << self.remaining;
        }
''')]),
('m6-wr-short-bad','G03 G06',[(C,WR,'''        if self.remaining == 0 {
            self.data.push(0);
            self.remaining = 8;
        }
        if bit {
            let last = self.data.len() - 1;
            self.data[last] |= 1 << (self.remaining - 1);
            self.remaining -= 1;
        } else if self.remaining > 1 {
            self.remaining -= 1;
        }
''')]),
('m6-rd-bits','',[(C,RD,'''        let end = self.data.bitlen();
        if self.cursor > end {
            return 0;
        }
        let n = n.min(end - self.cursor);
        for b in data.iter_mut().take((n + 7) / 8) {
            *b = 0;
        }
        for k in 0..n {
            let at = self.cursor + k;
            let (byte, _) = self.data.read_bytes(at / 8).unwrap();
            if byte & (0b1000_0000 >> (at % 8)) != 0 {
                data[k / 8] |= 0b1000_0000 >> (k % 8);
            }
        }
        self.cursor += n;
        n
''')]),
# ------------------------------------------------------------ server
('m6-px','',[(SV,PR,px())]),
('m6-px-created','',[(SV,PR,px(rest='404'))]),
('m6-px-write-ok-bad','S01 W01',[(SV,PR,px(werr='200'))]),
('m6-px-nosnap-bad','R06 S01 S03',[(SV,PR,px(rd_ok='''Ok(res) => Response::from_data(res.write_to_bytes().unwrap()).with_status_code(200),'''))]),
('m6-px-lossy-write-bad','W01 S01',[(SV,PR,px(wr='{ w.merge_from(&mut input); server.write(w) }'))]),
('m6-px-rest-bad','S01',[(SV,PR,px(rest='200'))]),
('m6-px-empty-bad','S01',[(SV,PR,px(empty='''Ok(_) if r.compute_size() > 4096 => Err(MonolithErr::InternalErr("large request".to_string())),'''))]),
# ------------------------------------------------------------ intersection
('m6-ix-fold','',[(U,IX,'''    let mut lists = ts.drain(..);
    let first = match lists.next() {
        Some(first) => first,
        None => return Ok(Vec::new()),
    };
    Ok(lists.fold(first, |acc, other| acc.order_intersect(&other)))
''')]),
('m6-ix-retain','',[(U,IX,'''    let mut res = match ts.pop() {
        Some(last) => last,
        None => return Ok(Vec::new()),
    };
    for other in ts.iter() {
        res.retain(|id| other.contains(id));
    }
    Ok(res)
''')]),
('m6-ix-all','',[(U,IX,'''    let mut res = Vec::new();
    if let Some((first, rest)) = ts.split_first() {
        for id in first {
            if rest.iter().all(|other| other.binary_search(id).is_ok()) {
                res.push(*id);
            }
        }
    }
    Ok(res)
''')]),
('m6-ix-any-bad','R03',[(U,IX,'''    let mut res = Vec::new();
    if let Some((first, rest)) = ts.split_first() {
        for id in first {
            if rest.is_empty() || rest.iter().any(|other| other.binary_search(id).is_ok()) {
                res.push(*id);
            }
        }
    }
    Ok(res)
''')]),
('m6-ix-drop-bad','R03',[(U,IX,'''    let mut res = match ts.pop() {
        Some(last) => last,
        None => return Ok(Vec::new()),
    };
    for other in ts.iter().skip(1) {
        res.retain(|id| other.contains(id));
    }
    Ok(res)
''')]),
('m6-ix-empty-bad','R03',[(U,IX,'''    let mut res = match ts.pop() {
        Some(last) => last,
        None => return Ok(Vec::new()),
    };
    for other in ts.iter() {
        if !other.is_empty() {
            res.retain(|id| other.contains(id));
        }
    }
    Ok(res)
''')]),
('m6-oi-filter','',[(CO,OI,'''        self.iter()
            .filter(|id| other.binary_search(id).is_ok())
            .cloned()
            .collect()
''')]),
('m6-oi-cmp','',[(CO,OI,'''        let (mut a, mut b) = (self.iter().peekable(), other.iter().peekable());
        let mut res = Vec::new();
        while let (Some(&x), Some(&y)) = (a.peek(), b.peek()) {
            if x < y {
                a.next();
            } else if y < x {
                b.next();
            } else {
                res.push(*x);
                a.next();
                b.next();
            }
        }
        res
''')]),
('m6-oi-cmp-bad','R03',[(CO,OI,'''        let (mut i, mut j) = (0, 0);
        let mut res: Vec<TimeSeriesId> = Vec::new();
        while i + 1 < self.len() && j < other.len() {
            match self[i].cmp(&other[j]) {
                std::cmp::Ordering::Less => i += 1,
                std::cmp::Ordering::Greater => j += 1,
                std::cmp::Ordering::Equal => {
                    res.push(self[i]);
                    i += 1;
                    j += 1;
                }
            }
        }
        if i < self.len() && other.last() == self.last() && res.last() != self.last() {
            res.push(self[i]);
        }
        res
''')]),
# ------------------------------------------------------------ options and binary
('m6-so-range','',[(OP,SO,'''        let number = |name: &str| matchers.value_of(name).unwrap();
        let worker_num: usize = number(WORKER_NUM).parse()?;
        let port: i32 = number(PORT).parse()?;
        match port {
            1024..=65535 => Ok(ServerOpts {
                port,
                write_path: matchers.value_of(WRITE_PATH).unwrap(),
                read_path: matchers.value_of(READ_PATH).unwrap(),
                worker_num,
            }),
            _ => Err(MonolithErr::OptionErr),
        }
''')]),
('m6-so-default-bad','O01',[(OP,SO,'''        let worker_num = matchers.value_of(WORKER_NUM).unwrap().parse::<usize>()?;
        let port = matchers.value_of(PORT).unwrap().parse::<i32>().unwrap_or(DEFAULT_PORT);
        if port > 65535 || port < 1024 {
            return Err(MonolithErr::OptionErr);
        };
        Ok(ServerOpts {
            port,
            worker_num,
            write_path: matchers.value_of(WRITE_PATH).unwrap(),
            read_path: matchers.value_of(READ_PATH).unwrap(),
        })
''')]),
('m6-so-clamp-bad','O01',[(OP,SO,'''        let worker_num = matchers.value_of(WORKER_NUM).unwrap().parse::<usize>()?;
        let port = matchers.value_of(PORT).unwrap().parse::<i32>()?.max(1024);
        if port > 65535 {
            return Err(MonolithErr::OptionErr);
        };
        Ok(ServerOpts {
            port,
            worker_num,
            write_path: matchers.value_of(WRITE_PATH).unwrap(),
            read_path: matchers.value_of(READ_PATH).unwrap(),
        })
''')]),
('m6-do-build','',[(OP,DO,'''        let secs = matches
            .value_of(CHUNK_SIZE)
            .map(|s| s.parse::<u64>())
            .unwrap()?;
        let mut config = DbOpts::default();
        config.chunk_size = Duration::from_secs(secs);
        config.storage = String::from(matches.value_of(STORAGE_ARG).unwrap());
        config.indexer = String::from(matches.value_of(INDEXER_ARG).unwrap());
        config.base_dir = PathBuf::from(matches.value_of(FILE_DIR_ARG).unwrap());
        config.tikv_config = match matches.value_of(TIKV_CONFIG) {
            Some(p) => Some(PathBuf::from(p)),
            None => None,
        };
        Ok(config)
''')]),
('m6-do-build-bad','O01',[(OP,DO,'''        let secs = matches
            .value_of(CHUNK_SIZE)
            .map(|s| s.parse::<u64>())
            .unwrap()?;
        let mut config = DbOpts::default();
        config.chunk_size = Duration::from_secs(secs);
        config.storage = String::from(matches.value_of(STORAGE_ARG).unwrap());
        config.indexer = String::from(matches.value_of(INDEXER_ARG).unwrap());
        config.tikv_config = match matches.value_of(TIKV_CONFIG) {
            Some(p) => Some(PathBuf::from(p)),
            None => None,
        };
        Ok(config)
''')]),
('m6-do-minutes-bad','O01',[(OP,"            chunk_size: Duration::from_secs(chunk_size_in_sec),","            chunk_size: Duration::from_secs(chunk_size_in_sec / 60 * 60),")]),
('m6-bt-match','',[(B,BT,'''    let uses_tikv = [&db_opts.indexer, &db_opts.storage]
        .iter()
        .any(|name| name.as_str() == TIKV_BACKEND);
    let tikv_backend_singleton = match (&db_opts.tikv_config, uses_tikv) {
        (_, false) => None,
        (Some(path), true) => Some(TiKvRawBackendSingleton::from_config_file(path.as_path()).unwrap()),
        (None, true) => {
            warn!("No TiKV config file provided, will use dry run mode");
            Some(TiKvRawBackendSingleton::default())
        }
    };

''')]),
('m6-bt-both-bad','O02',[(B,BT,'''    let tikv_backend_singleton = if db_opts.indexer == TIKV_BACKEND || db_opts.storage == TIKV_BACKEND {
        if db_opts.tikv_config.is_some() && db_opts.storage == TIKV_BACKEND {
            Some(
                TiKvRawBackendSingleton::from_config_file(
                    db_opts.tikv_config.clone().unwrap().as_path(),
                )
                .unwrap(),
            )
        } else {
            warn!("No TiKV config file provided, will use dry run mode");
            Some(TiKvRawBackendSingleton::default())
        }
    } else {
        None
    };

''')]),
('m6-bt-fallback-bad','O02',[(B,BT,'''    let tikv_backend_singleton = if db_opts.indexer == TIKV_BACKEND || db_opts.storage == TIKV_BACKEND {
        Some(
            db_opts
                .tikv_config
                .clone()
                .and_then(|p| TiKvRawBackendSingleton::from_config_file(p.as_path()).ok())
                .unwrap_or_default(),
        )
    } else {
        None
    };

''')]),
# ------------------------------------------------------------ point records
('m6-en-array','',[(SS,EN,'''        let mut record = [0u8; 16];
        record[..8].copy_from_slice(&timestamp.to_be_bytes());
        record[8..].copy_from_slice(&value.to_be_bytes());
        Ok(record.to_vec())
''')]),
('m6-en-array-bad','R01 W02',[(SS,EN,'''        let mut record = [0u8; 16];
        record[..8].copy_from_slice(&timestamp.to_be_bytes());
        record[8..12].copy_from_slice(&value.to_be_bytes()[..4]);
        Ok(record.to_vec())
''')]),
('m6-en-u128','',[(SS,EN,'''        let both = (timestamp as u128) << 64 | value.to_bits() as u128;
        Ok(both.to_be_bytes().to_vec())
''')]),
('m6-de-u128','',[(SS,DE,'''        let record: [u8; 16] = raw.try_into().map_err(|_| {
            MonolithErr::InternalErr("Wrong number of bytes in input".to_string())
        })?;
        let both = u128::from_be_bytes(record);
        Ok(TimePoint::new(
            (both >> 64) as Timestamp,
            Value::from_bits(both as u64),
        ))
''')]),
('m6-de-u128-bad','R01 W02',[(SS,DE,'''        let record: [u8; 16] = raw.try_into().map_err(|_| {
            MonolithErr::InternalErr("Wrong number of bytes in input".to_string())
        })?;
        let both = u128::from_be_bytes(record);
        Ok(TimePoint::new(
            (both >> 64) as u32 as Timestamp,
            Value::from_bits(both as u64),
        ))
''')]),
]
