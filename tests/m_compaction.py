G='src/compaction/gorilla.rs'; C='src/compaction/mod.rs'
M=[
# ---- writer / reader of time stamps
('c-g-dod16-bits','G01',[(G,"self.bstream.write_bits(dod.to_be_bytes(), 16)","self.bstream.write_bits(dod.to_be_bytes(), 15)")]),
('c-g-range','G01',[(G,"-(1i64 << (nbits - 1)) <= t && t < 1i64","-(1i64 << (nbits - 1)) <= t && t <= 1i64")]),
('c-g-range-prom','G01',[(G,"-(1i64 << (nbits - 1)) <= t && t < 1i64","-(1i64 << (nbits - 1)) < t && t <= 1i64")]),
('c-g-range-wide','G01',[(G,"in_bit_range(dod, 16)","in_bit_range(dod, 17)")]),
('c-g-range-neg','G01',[(G,"-(1i64 << (nbits - 1)) <= t","-(1i64 << nbits) <= t")]),
('c-g-prefix','G01',[(G,"self.bstream.append_bytes(&vec![0b11110000], 4);","self.bstream.append_bytes(&vec![0b11110000], 3);")]),
('c-g-prefix-same','G01',[(G,"self.bstream.append_bytes(&vec![0b11110000], 4);","self.bstream.append_bytes(&vec![0b11100000], 4);")]),
('c-g-unsigned8','G01',[(G,"i8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64","u8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64")]),
('c-g-unsigned32','G01',[(G,"i32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64","u32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64")]),
('c-g-reset2','G01',[(G,"(4 - l) - 2);","(4 - l) - 1);")]),
('c-g-reset3','G01',[(G,"self.source.get_cursor() + (4 - l) - 3","self.source.get_cursor() - 3")]),
('c-g-noupd-d','G01',[(G,"            self.compact_value(&tp.value);\n\n            self.d = t_delta;","            self.compact_value(&tp.value);")]),
('c-g-noupd-d2','G01',[(G,"            let dod = t_delta - self.d;\n\n            self.d = t_delta;","            let dod = t_delta - self.d;")]),
('c-g-noupd-dec','G01',[(G,"            self.t = timestamp;\n            if let","            if let")]),
('c-g-noupd-d0','G01',[(G,"            self.d = delta;\n            self.t","            self.t")]),
('c-g-idx-early','G01',[(G,"                self.v = value;\n                self.idx += 1;","                self.v = value;\n                self.idx += 2;")]),
('c-g-len2','G01',[(G,"        } else if self.len == 1 {","        } else if self.len <= 2 {")]),
('c-g-dec-range','G01',[(G,"if let Some(ts) = self.decompact_timestamp(32) {","if let Some(ts) = self.decompact_timestamp(64) {")]),
('c-g-order','G01',[(G,"            self.bstream.append_bytes(&tp.timestamp.to_be_bytes(), 0);\n            self.bstream.append_bytes(&tp.value.to_be_bytes(), 0);","            self.bstream.append_bytes(&tp.value.to_be_bytes(), 0);\n            self.bstream.append_bytes(&tp.timestamp.to_be_bytes(), 0);")]),
('c-g-split','G01',[(G,"let (timestamp_bytes, value_bytes) = timepoint.split_at","let (value_bytes, timestamp_bytes) = timepoint.split_at")]),
('c-g-le','G01',[(G,"self.bstream.append_bytes(&t_delta.to_be_bytes(), 0);","self.bstream.append_bytes(&t_delta.to_le_bytes(), 0);")]),
('c-g-dec-delta32','G01',[(G,"let delta = i64::from_be_bytes(delta_v.as_slice().try_into().unwrap());","let delta = i64::from_be_bytes(delta_v.as_slice().try_into().unwrap()) as i32 as i64;")]),
('c-g-trunc-prefix','G01',[(G,"if l == 0 || l > 4 {","if l < 4 {")]),
('c-g-dod-cast','G01',[(G,"} else if in_bit_range(dod, 32) {","} else if dod < 1 << 31 {")]),
('c-g-start-idx','G01',[(G,"            idx: 0,","            idx: 1,")]),
('c-g-end','',[(G,"            if l == 0 || l > 4 {\n                return None;\n            }","")]),
# ---- values
('c-g-lead31','G02',[(G,"(xord.leading_zeros() as u8).min(31)","xord.leading_zeros() as u8")]),
('c-g-lead32','G02',[(G,".min(31)",".min(32)")]),
('c-g-sig64','G02',[(G,"            if sig_len == 0 {\n                // 64 does not fit into 6 bits\n                sig_len = 64;\n            }\n","")]),
('c-g-sig5','G02',[(G,"self.bstream.write_bits((sigbits as u64).to_be_bytes(), 6);","self.bstream.write_bits((sigbits as u64).to_be_bytes(), 5);")]),
('c-g-lead6','G02',[(G,".read_next_n_bit(leading_zeros_bytes.as_mut_slice(), 5);",".read_next_n_bit(leading_zeros_bytes.as_mut_slice(), 6);"),(G,"if l != 5 {","if l != 6 {"),(G,"leading_zeros_bytes[0] >> 3","leading_zeros_bytes[0] >> 2")]),
('c-g-lead-shift','G02',[(G,"leading_zeros_bytes[0] >> 3","leading_zeros_bytes[0] >> 2")]),
('c-g-reuse-noleadcheck','G02',[(G,"self.len > 1 && leading >= self.leading && trailing >= self.tailing","self.len > 1 && trailing >= self.tailing")]),
('c-g-reuse-notrail','G02',[(G,"self.len > 1 && leading >= self.leading && trailing >= self.tailing","self.len > 1 && leading >= self.leading")]),
('c-g-reuse-off','G02',[(G,"trailing >= self.tailing {","trailing + 1 >= self.tailing {")]),
('c-g-reuse-shift','G02',[(G,"(xord >> self.tailing as u64).to_be_bytes(),\n                        value_size","(xord >> trailing as u64).to_be_bytes(),\n                        value_size")]),
('c-g-reuse-update','G02',[(G,"                    self.bstream.write_zero(); // write 10\n","                    self.bstream.write_zero(); // write 10\n                    self.leading = leading;\n")]),
('c-g-nostate','G02',[(G,"            self.tailing = tailing;\n            self.leading = leading;\n            self.v = value;","            self.leading = leading;\n            self.v = value;")]),
('c-g-nostate-w','G02',[(G,"                    self.tailing = trailing;\n                    self.leading","                    self.leading")]),
('c-g-nov','G02',[(G,"            value = xor_f64(value, xord);\n            self.v = value;\n\n            return Some(value);","            value = xor_f64(value, xord);\n\n            return Some(value);")]),
('c-g-flag','G02',[(G,"next_bytes[0] & 0b11000000 == 0b10000000 {\n            // if the xord","next_bytes[0] & 0b11000000 == 0b11000000 {\n            // if the xord")]),
('c-g-cursor','G02',[(G,"(2 - rl) - 1);","(2 - rl) - 0);")]),
('c-g-rl1','G02',[(G,"if rl == 1 || next_bytes","if next_bytes"),(G,"(2 - rl) - 1);","1 - rl.min(1));")]),
('c-g-last1','G02',[(G,"if rl > 2 || rl == 0 {","if rl != 2 {")]),
('c-g-init','G02',[(G,"            v: 0.0,\n            leading: 0,\n            tailing: 0,\n            d: 0,","            v: 0.0,\n            leading: 0,\n            tailing: 8,\n            d: 0,")]),
('c-g-value-first','G02',[(G,"self.bstream.append_bytes(&tp.value.to_be_bytes(), 0);","self.bstream.append_bytes(&tp.value.abs().to_be_bytes(), 0);")]),
('c-g-xor-ne','G02',[(G,"            if xord == 0 {\n","            if *value == self.v {\n")]),
('c-g-v-late','G02',[(G,"        self.len += 1;\n        self.t = tp.timestamp;\n        self.v = tp.value;","        self.len += 1;\n        self.t = tp.timestamp;\n        if tp.value != 0.0 { self.v = tp.value; }")]),
('c-g-shift-lead','G02',[(G,"u64::from_be_bytes(sigbit.as_slice().try_into().unwrap()) >> leading","u64::from_be_bytes(sigbit.as_slice().try_into().unwrap()) >> tailing")]),
# ---- codecs
('c-c-tag','G04',[(C,"vec.push(CompactType::None as u8);","vec.push(CompactType::Gorilla as u8);")]),
('c-c-nocheck','G04',[(C,"if t != CompactType::None as u8 {","if t == CompactType::Gorilla as u8 {")]),
('c-c-default','G04',[(C,"let t = data.pop().unwrap_or(0);\n                if t != CompactType::Gorilla","let t = data.pop().unwrap_or(1);\n                if t != CompactType::Gorilla")]),
('c-c-last','G04',[(C,"                let t = data.pop().unwrap_or(0);\n                if t != CompactType::None","                let t = data.last().cloned().unwrap_or(0);\n                if t != CompactType::None")]),
('c-c-first','G04',[(C,"                let t = data.pop().unwrap_or(0);\n                if t != CompactType::None","                let t = data.first().cloned().unwrap_or(0);\n                if t != CompactType::None")]),
('c-c-order','G04',[(C,"                for _b in &timepoint.timestamp.to_be_bytes() {\n                    _v.push(*_b);\n                }\n                for _b in &timepoint.value.to_be_bytes() {\n                    _v.push(*_b);\n                }","                for _b in &timepoint.value.to_be_bytes() {\n                    _v.push(*_b);\n                }\n                for _b in &timepoint.timestamp.to_be_bytes() {\n                    _v.push(*_b);\n                }")]),
('c-c-le','G04',[(C,"for _b in &timepoint.value.to_be_bytes()","for _b in &timepoint.value.to_le_bytes()")]),
('c-c-skip','G04',[(C,"                for tp in data {\n                    self.compact(&tp);\n                }","                for tp in &data[1..] {\n                    self.compact(tp);\n                }")]),
('c-c-rev','G04',[(C,"                for tp in data {\n                    self.compact(&tp);\n                }","                for tp in data.into_iter().rev() {\n                    self.compact(&tp);\n                }")]),
('c-c-notag','G04',[(C,"                // Append Gorilla tag\n                vec.push(CompactType::Gorilla as u8);\n","")]),
('c-c-chunks','G04',[(C,"_v.chunks(timepoint_size)","_v[..(_v.len() - 1)].chunks(timepoint_size)")]),
('c-c-swap','G04',[(C,"Ok(Decompactor::None(data))","Ok(Decompactor::Gorilla(GorillaDecompactor::new(Bstream::from_bytes(data))))")]),
('c-c-cond','G04',[(C,"                    res.push(TimePoint::new(timestamp, value));","                    if timestamp != 0 {\n                        res.push(TimePoint::new(timestamp, value));\n                    }")]),
('c-c-err','G04',[(C,"CompactionErr::CompactionTypeDontMatch(CompactType::Gorilla as u8, t)","CompactionErr::CompactionTypeDontMatch(t, CompactType::Gorilla as u8)")]),
('c-c-gbytes','G04',[(G,"        self.bstream.as_bytes_vec()\n","        let mut v = self.bstream.as_bytes_vec();\n        if self.len > 2 {\n            v.pop();\n        }\n        v\n")]),
('c-c-gbytes-b','',[(G,"        self.bstream.as_bytes_vec()\n","        let stream = &self.bstream;\n        stream.as_bytes_vec()\n")]),
# ---- stream
('c-s-mask','G03',[(C,"mask >>= (8 - self.remaining);","mask >>= (7 - self.remaining);")]),
('c-s-first','G03',[(C,"first <<= self.remaining;","first <<= self.remaining - 1;")]),
('c-s-last-le','G03',[(C,"if self.remaining < (8 - bstream.remaining) {","if self.remaining <= (8 - bstream.remaining) {")]),
('c-s-rem','G03',[(C,"self.remaining = bstream.remaining + self.remaining - 8;","self.remaining = bstream.remaining + self.remaining - 7;")]),
('c-s-fit','',[(C,"if bstream_len <= self.remaining as usize {","if bstream_len < self.remaining as usize {")]),
('c-s-fit2','G03',[(C,"if bstream_len <= self.remaining as usize {","if bstream_len <= 8 {")]),
('c-s-loop','G03',[(C,"for i in 0..(bstream.data.len() - 1) {","for i in 1..(bstream.data.len() - 1) {")]),
('c-s-second','G03',[(C,"second >>= (8 - self.remaining);","second >>= (8 - bstream.remaining);")]),
('c-s-norem','G03',[(C,"self.remaining = bstream.remaining as u8;","self.remaining = 0;")]),
('c-s-bit','G03',[(C,"            self.remaining -= 1;\n            if bit {\n                *(self.data.last_mut().unwrap()) |= (0b00000001 << self.remaining);","            if bit {\n                *(self.data.last_mut().unwrap()) |= (0b00000001 << self.remaining);\n            }\n            self.remaining -= 1;\n            if false {")]),
('c-s-bit7','G03',[(C,"            self.remaining = 7\n","            self.remaining = 8\n")]),
('c-s-bits','G03',[(C,"usize::from(leading) / 8 + 1)..8]","usize::from(leading) / 8 + 1)..7]")]),
('c-s-bits2','G03',[(C,"self.append_bytes(&[val], leading % 8);","self.append_bytes(&[val], nbits % 8);")]),
('c-s-bytes','G03',[(C,"res.push(self.remaining.to_be_bytes()[0]);","res.insert(0, self.remaining.to_be_bytes()[0]);")]),
('c-s-bytes2','G03',[(C,"Bstream { data, remaining }\n    }\n\n    /// Write a single","Bstream { data, remaining: remaining % 7 }\n    }\n\n    /// Write a single")]),
('c-s-bitlen','G03',[(C,"self.data.len() * 8 - self.remaining as usize\n    }\n\n    /// append","self.data.len() * 8\n    }\n\n    /// append")]),
# ---- seeker
('c-r-cursor','',[(C,"if self.cursor + n > self.data.bitlen() {","if self.cursor + n >= self.data.bitlen() {")]),
('c-r-short','G05',[(C,"                self.data.bitlen() - self.cursor\n","                0\n")]),
('c-r-lead','G05',[(C,"second.checked_shr((8 - leading).into())","second.checked_shr((7 - leading).into())")]),
('c-r-next','G05',[(C,".read_bytes(self.cursor / 8 + cur + 1)",".read_bytes(self.cursor / 8 + cur)")]),
('c-r-move','G05',[(C,"            self.cursor += n;\n            n","            self.cursor += cur * 8;\n            n")]),
('c-r-ret','G05',[(C,"            self.cursor += n;\n            n","            self.cursor += n;\n            cur * 8")]),
('c-r-mask','G05',[(C,"flag <<= (8 - n % 8) as u8;","flag <<= (n % 8) as u8;")]),
('c-r-mask2','G05',[(C,"data[cur - 1] = flag & data[cur - 1];","data[0] = flag & data[0];")]),
('c-r-keep','G05',[(C,"first &= 0xff >> leading;","first &= 0x7f >> leading;")]),
('c-r-noshl','G05',[(C,"                first <<= leading; // move them to left\n","")]),
('c-r-stop','G05',[(C,"while cur * 8 < n {","while cur * 8 + 8 <= n {")]),
('c-r-past','G05',[(C,"        if self.cursor > self.data.bitlen() {\n            // if we already reach the end of the stream\n            0","        if self.cursor > self.data.bitlen() {\n            // if we already reach the end of the stream\n            n")]),
# ---- refactorings
('c-b-match','',[(G,"            if dod == 0 {\n                self.bstream.append_bytes(&vec![0b00000000], 7);\n            }","            if dod == 0 {\n                self.bstream.write_zero();\n            }")]),
('c-b-prefix','',[(G,"self.bstream.append_bytes(&vec![0b10000000], 6);","self.bstream.write_one();\n                self.bstream.write_zero();")]),
('c-b-prefix2','',[(G,"self.bstream.append_bytes(&vec![0b11100000], 4);","self.bstream.write_bits(14u64.to_be_bytes(), 4);")]),
('c-b-append64','',[(G,"self.bstream.write_bits(dod.to_be_bytes(), 64);","self.bstream.append_bytes(&dod.to_be_bytes(), 0);")]),
('c-b-range','',[(G,"    return -(1i64 << (nbits - 1)) <= t && t < 1i64 << (nbits - 1);","    let half = 1i64 << (nbits - 1);\n    t >= -half && t <= half - 1")]),
('c-b-order','',[(G,"        self.len += 1;\n        self.t = tp.timestamp;\n        self.v = tp.value;","        self.v = tp.value;\n        self.t = tp.timestamp;\n        self.len += 1;")]),
('c-b-bits','',[(G,"let xord: u64 = convert_to_u64(*value) ^ convert_to_u64(self.v.clone());","let xord: u64 = self.v.to_bits() ^ value.to_bits();")]),
('c-b-helper','',[(G,"                    self.bstream.write_bits((leading as u64).to_be_bytes(), 5);\n\n                    let sigbits = value_size as u8 - leading - trailing;\n                    self.bstream.write_bits((sigbits as u64).to_be_bytes(), 6);\n                    self.bstream\n                        .write_bits((xord >> trailing as u64).to_be_bytes(), sigbits);","                    let sigbits = value_size as u8 - leading - trailing;\n                    self.write_window(leading, sigbits, xord >> trailing as u64);"),(G,"    pub fn compact_value(&mut self","    fn write_window(&mut self, leading: u8, sigbits: u8, payload: u64) {\n        self.bstream.write_bits(u64::from(leading).to_be_bytes(), 5);\n        self.bstream.write_bits(u64::from(sigbits).to_be_bytes(), 6);\n        self.bstream.write_bits(payload.to_be_bytes(), sigbits);\n    }\n\n    pub fn compact_value(&mut self")]),
('c-b-reuse','',[(G,"self.len > 1 && leading >= self.leading && trailing >= self.tailing","self.len > 1 && !(leading < self.leading || trailing < self.tailing)")]),
('c-b-never-reuse','',[(G,"if self.len > 1 && leading >= self.leading && trailing >= self.tailing {","if self.len > 1 && leading == self.leading && trailing == self.tailing {")]),
('c-b-min','',[(G,"let leading: u8 = (xord.leading_zeros() as u8).min(31);","let lz = xord.leading_zeros() as u8;\n                let leading: u8 = if lz > 31 { 31 } else { lz };")]),
('c-b-min15','',[(G,".min(31)",".min(15)")]),
('c-b-dec-match','',[(G,"            if sig_len == 0 {\n                // 64 does not fit into 6 bits\n                sig_len = 64;\n            }\n","            sig_len = match sig_len {\n                0 => 64,\n                n => n,\n            };\n")]),
('c-b-dec-early','',[(G,"            if let Some(value) = self.decompact_values() {\n                self.idx += 1;\n                Some(TimePoint::new(timestamp, value))\n            } else {\n                None\n            }\n        }","            let value = self.decompact_values()?;\n            self.idx += 1;\n            Some(TimePoint::new(timestamp, value))\n        }")]),
('c-b-dec-bits','',[(G,"            value = xor_f64(value, xord);\n            self.v = value;\n\n            return Some(value);","            self.v = xor_f64(xord, self.v);\n\n            return Some(self.v);")]),
('c-b-dec-cursor','',[(G,".reset_cursor(self.source.get_cursor() + (2 - rl) - 1);",".reset_cursor(self.source.get_cursor() + 1 - rl);")]),
('c-b-dec-delta','',[(G,"            let timestamp = delta + self.t as i64;\n","            let timestamp = self.t as i64 + delta;\n")]),
('c-b-dec-range','',[(G,"if !vec![8, 16, 32, 64].contains(&range) {","if range != 8 && range != 16 && range != 32 && range != 64 {")]),
('c-b-len','',[(G,"        if self.len == 0 {\n            // if 0, means","        if self.len < 1 {\n            // if 0, means")]),
('c-b-tag','',[(C,"                let mut vec = _v.clone();\n                vec.push(CompactType::None as u8);\n                vec","                let mut vec = Vec::with_capacity(_v.len() + 1);\n                vec.extend_from_slice(_v);\n                vec.push(3);\n                vec")]),
('c-b-point','',[(C,"                for _b in &timepoint.timestamp.to_be_bytes() {\n                    _v.push(*_b);\n                }\n                for _b in &timepoint.value.to_be_bytes() {\n                    _v.push(*_b);\n                }","                _v.extend_from_slice(&timepoint.timestamp.to_be_bytes());\n                _v.extend_from_slice(&timepoint.value.to_be_bytes());")]),
('c-b-read','',[(C,"                let mut res = vec![];\n                for _b in _v.chunks(timepoint_size) {","                let mut res = Vec::with_capacity(_v.len() / timepoint_size);\n                for _b in _v.chunks_exact(timepoint_size) {")]),
('c-b-from','',[(C,"                let t = data.pop().unwrap_or(0);\n                if t != CompactType::None as u8 {\n                    return Err(compaction_error!(CompactionErr::CompactionTypeDontMatch(\n                        CompactType::None as u8,\n                        t\n                    )));\n                }\n                Ok(Decompactor::None(data))","                let want = CompactType::None as u8;\n                match data.pop().unwrap_or(0) {\n                    t if t == want => Ok(Decompactor::None(data)),\n                    t => Err(compaction_error!(CompactionErr::CompactionTypeDontMatch(want, t))),\n                }")]),
('c-b-gor','',[(C,"                let mut vec = compator.as_bytes_vec();\n\n                // Append Gorilla tag\n                vec.push(CompactType::Gorilla as u8);\n                vec\n            }\n            &mut Compactor::None(_)","                self.get_bytes_vec()\n            }\n            &mut Compactor::None(_)")]),
('c-b-each','',[(C,"                for tp in data {\n                    self.compact(&tp);\n                }","                data.iter().for_each(|tp| self.compact(tp));")]),
('c-b-append-ext','',[(C,"            self.data.append(bstream.data.clone().as_mut());","            self.data.extend_from_slice(&bstream.data);")]),
('c-b-append-ge','',[(C,"if bstream_len <= self.remaining as usize {","if (self.remaining as usize) >= bstream_len {")]),
('c-b-append-pair','',[(C,"                    let mut first = bstream.data.get(i).unwrap().clone();\n                    let mut second = bstream.data.get(i + 1).unwrap().clone();\n                    first <<= self.remaining;\n                    second >>= (8 - self.remaining);\n                    first |= second;\n                    self.data.push(first);","                    let first = bstream.data[i] << self.remaining;\n                    let second = bstream.data[i + 1] >> (8 - self.remaining);\n                    self.data.push(second | first);")]),
('c-b-write','',[(C,"            if bit {\n                self.data.push(0b10000000)\n            } else {\n                self.data.push(0b00000000)\n            }","            self.data.push(if bit { 128 } else { 0 });")]),
('c-b-write2','',[(C,"*(self.data.last_mut().unwrap()) |= (0b00000001 << self.remaining);","let n = self.data.len();\n                self.data[n - 1] |= 1 << self.remaining;")]),
('c-b-bits2','',[(C,"        let leading = 64 - nbits;\n        let val = bytes[usize::from(leading) / 8] << leading % 8;\n        self.append_bytes(&[val], leading % 8);\n        self.append_bytes(&bytes[(usize::from(leading) / 8 + 1)..8], 0);","        let skip = usize::from(64 - nbits);\n        let (byte, bit) = (skip / 8, (skip % 8) as u8);\n        self.append_bytes(&[bytes[byte] << bit], bit);\n        self.append_bytes(&bytes[byte + 1..], 0);")]),
('c-b-seek-min','',[(C,"            let n = if self.cursor + n > self.data.bitlen() {\n                self.data.bitlen() - self.cursor\n            } else {\n                n\n            };","            let n = n.min(self.data.bitlen() - self.cursor);")]),
('c-b-seek-early','',[(C,"        if self.cursor > self.data.bitlen() {\n            // if we already reach the end of the stream\n            0","        if self.cursor >= self.data.bitlen() {\n            // if we already reach the end of the stream\n            0")]),
('c-b-seek-nomask','',[(C,"                first &= 0xff >> leading; // get last `8 - leading` bits\n","")]),
('c-b-seek-flag','',[(C,"                data[cur - 1] = flag & data[cur - 1];","                data[cur - 1] &= flag;")]),
('c-b-seek-for','',[(C,"            let mut cur = 0;\n            while cur * 8 < n {","            let start = self.cursor / 8;\n            let mut cur = 0;\n            while n > cur * 8 {"),(C,".read_bytes(self.cursor / 8 + cur).unwrap();",".read_bytes(start + cur).unwrap();"),(C,".read_bytes(self.cursor / 8 + cur + 1)",".read_bytes(start + cur + 1)")]),
]
