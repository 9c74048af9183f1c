L='src/common/label.rs'; P='src/common/time_point.rs'; S='src/common/time_series.rs'; U='src/common/utils.rs'; C='src/common/mod.rs'
MERGE="""        while i < self.len() && j < other.len() {
            if self.index(i) == other.index(j) {
                res.push(*self.index(i));
                i += 1;
                j += 1;
            } else if self.index(i) > other.index(j) {
                j += 1;
            } else {
                i += 1;
            }
        }
        res
"""
LEQ="""        for i in 0..self.len() {
            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
                return false;
            }
        }
        true
"""
LEN="""        if self.len() != other.len() {
            return false;
        }
"""
TEQ="""        self.timestamp.eq(&other.timestamp)
            && self.value - other.value < F64_MARGIN
            && other.value - self.value < F64_MARGIN
"""
ENC="""    let mut res = 0u128;
    res |= start_time as u128;
    res = res << 64;
    res |= end_time as u128;

    format!("{:x}", res)
"""
DEC="""    let end_time: u64 = (decimal & (u64::max_value() as u128)) as u64;
    let start_time: u64 = ((decimal & (u128::max_value() - u64::max_value() as u128)) >> 64) as u64;
"""
GATHER="""        let mut next_vec: TimeSeriesIdMatrix = Vec::new();

        loop {
            if !_finish1 {
                if let Some(val) = gather_res(&_r1)? {
                    next_vec.push(val);
                    _finish1 = true
                }
            }
            if !_finish2 {
                if let Some(val) = gather_res(&_r2)? {
                    next_vec.push(val);
                    _finish2 = true
                }
            }
            if _finish1 && _finish2 {
                break;
            }
        }
"""
FL="""        for i in 0..ts.len() {
            let _v: Vec<u64> = ts.index(i).clone();
            if i < ts.len() / 2 {
                data1.push(_v)
            } else {
                data2.push(_v)
            }
        }
"""
M=[
('co-leq-key','E01',[(L,"self.key.eq(&other.key) && self.value.eq(&other.value)","self.key.eq(&other.key)")]),
('co-leq-or','E01',[(L,"self.key.eq(&other.key) && self.value.eq(&other.value)","self.key.eq(&other.key) || self.value.eq(&other.value)")]),
('co-lseq-nolen','E01',[(L,LEN,"")]),
('co-lseq-longer','E01',[(L,"if self.len() != other.len()","if self.len() > other.len()")]),
('co-lseq-skip','E01',[(L,"for i in 0..self.len()","for i in 1..self.len()")]),
('co-lseq-zip','E01',[(L,LEN+LEQ,"        self.0.iter().zip(other.0.iter()).all(|(a, b)| a == b)\n")]),
('co-lseq-keyonly','E01',[(L,"if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap())","if self.0.get(i).unwrap().key != other.0.get(i).unwrap().key")]),
('co-lseq-true','E01',[(L,LEQ,"        true\n")]),
('co-hash-cap','E01',[(L,"        for label in self.0.iter() {\n            label.hash(state)\n        }","        for label in self.0.iter() {\n            label.hash(state)\n        }\n        self.0.capacity().hash(state)")]),
('co-ord-value','E01',[(L,"        self.key.cmp(&other.key)","        self.value.cmp(&other.value)")]),
('co-ord-rev','E01',[(L,"        self.key.cmp(&other.key)","        other.key.cmp(&self.key)")]),
('co-tpeq-onesided','E02',[(P,"            && other.value - self.value < F64_MARGIN\n","")]),
('co-tpeq-novalue','E02',[(P,TEQ,"        self.timestamp.eq(&other.timestamp)\n")]),
('co-tpeq-notime','E02',[(P,"self.timestamp.eq(&other.timestamp)\n            && self","self")]),
('co-tpeq-dup','E02',[(P,"other.value - self.value < F64_MARGIN","self.value - other.value < F64_MARGIN")]),
('co-tpeq-margin','E02',[(P,"0.000000001","0.1")]),
('co-tpeq-le','E02',[(P,"self.value - other.value < F64_MARGIN","self.value - other.value <= F64_MARGIN")]),
('co-tpeq-nan','E02',[(P,TEQ,"        self.timestamp.eq(&other.timestamp)\n            && !((self.value - other.value).abs() >= F64_MARGIN)\n")]),
('co-tp-cmp-rev','E02',[(P,"        self.timestamp.cmp(&other.timestamp)","        other.timestamp.cmp(&self.timestamp)")]),
('co-tp-pcmp-val','E02',[(P,"        self.timestamp.partial_cmp(&other.timestamp)","        self.value.partial_cmp(&other.value)")]),
('co-merge-advj','R03',[(C,MERGE,MERGE.replace("> other.index(j)","< other.index(j)"))]),
('co-merge-stop','R03',[(C,"while i < self.len() && j","while i + 1 < self.len() && j")]),
('co-merge-start','R03',[(C,"let mut i = 0;","let mut i = 1;")]),
('co-merge-nopush','R03',[(C,"                res.push(*self.index(i));\n                i += 1;","                if res.is_empty() { res.push(*self.index(i)); }\n                i += 1;")]),
('co-merge-union','R03',[(C,"            } else {\n                i += 1;","            } else {\n                res.push(*self.index(i));\n                i += 1;")]),
('co-merge-both','R03',[(C,"            } else {\n                i += 1;","            } else {\n                i += 1;\n                j += 1;")]),
('co-merge-skip2','R03',[(C,"                i += 1;\n                j += 1;","                i += 1;\n                j += 2;")]),
('co-is-half','R03',[(U,"if i < ts.len() / 2","if i < ts.len() / 2 - 1"),(U,"            } else {\n                data2.push(_v)","            } else if i >= ts.len() / 2 {\n                data2.push(_v)")]),
('co-is-last','R03',[(U,"Ok(intersect_time_series_id_vec(ts)?.order_intersect(&last))","let _ = last; Ok(intersect_time_series_id_vec(ts)?)")]),
('co-is-swap','R03',[(U,"thread::spawn(move || handler(_s2, data2.clone()));","let _ = data2; thread::spawn(move || handler(_s2, data3.clone()));"),(U,"        thread::spawn(move || handler(_s1, data1.clone()));","        let data3 = data1.clone();\n        thread::spawn(move || handler(_s1, data1.clone()));")]),
('co-is-flag','R03',[(U,"            if _finish1 && _finish2 {","            if _finish1 || _finish2 {")]),
('co-is-two','R03',[(U,"return Ok(ts.index(0).order_intersect(ts.index(1)));","return Ok(ts.index(0).order_intersect(ts.index(0)));")]),
('co-is-swallow','R03',[(U,"Ok(res) => Ok(Some(res?)),","Ok(res) => Ok(Some(res.unwrap_or_default())),")]),
('co-is-all','R03',[(U,"if i < ts.len() / 2","if i < ts.len()")]),
('co-is-odd-swallow','R03',[(U,"Ok(intersect_time_series_id_vec(ts)?.order_intersect(&last))","Ok(intersect_time_series_id_vec(ts).unwrap_or_default().order_intersect(&last))")]),
('co-dir-shift','D02',[(U,"res = res << 64;","res = res << 60;")]),
('co-dir-swap','D02',[(U,"    Ok((start_time, end_time))","    Ok((end_time, start_time))")]),
('co-dir-u64','D02',[(U,DEC,DEC.replace(">> 64","<< 64"))]),
('co-dir-trunc','D02',[(U,"res |= end_time as u128;","res |= end_time as u32 as u128;")]),
('co-dir-mask','D02',[(U,"(decimal & (u64::max_value() as u128)) as u64","(decimal & (u32::max_value() as u128)) as u64")]),
('co-dir-radix','D02',[(U,"u128::from_str_radix(dir_name.as_str(), 16)","u128::from_str_radix(dir_name.as_str(), 10)")]),
('co-dir-panic','D02',[(U,"u128::from_str_radix(dir_name.as_str(), 16)?","u128::from_str_radix(dir_name.as_str(), 16).unwrap()")]),
('co-dir-default','D02',[(U,"u128::from_str_radix(dir_name.as_str(), 16)?","u128::from_str_radix(dir_name.as_str(), 16).unwrap_or(0)")]),
('co-dir-cat','D02',[(U,ENC,'    format!("{:x}{:x}", start_time, end_time)\n')]),
('co-conv-swap','S03',[(L,"            key: l.name.clone(),\n            value: l.value.clone(),","            key: l.value.clone(),\n            value: l.name.clone(),")]),
('co-conv-lower','S03',[(L,"            name: l.key.clone(),","            name: l.key.to_lowercase(),")]),
('co-conv-trim','S03',[(L,"            value: label_matcher.value.clone(),","            value: label_matcher.value.trim().to_string(),")]),
('co-conv-sec','S03',[(P,"timestamp: s.timestamp as Timestamp","timestamp: (s.timestamp / 1000) as Timestamp")]),
('co-conv-i32','S03',[(P,"timestamp: t.timestamp as i64","timestamp: t.timestamp as i32 as i64")]),
('co-conv-f32','S03',[(P,"            value: s.value,","            value: s.value as f32 as f64,")]),
('co-conv-skip','S03',[(S,"labels: t.0.vec().iter().map","labels: t.0.vec().iter().skip(1).map")]),
('co-conv-rev','S03',[(S,"samples: t.1.iter().map(Sample::from).collect()","samples: t.1.iter().rev().map(Sample::from).collect()")]),
('co-conv-filter','S03',[(S,"time_points: t.samples.iter().map","time_points: t.samples.iter().filter(|s| s.value != 0.0).map")]),
# behaviour kept
('cb-leq','',[(L,"self.key.eq(&other.key) && self.value.eq(&other.value)","if self.key != other.key { return false; }\n        self.value == other.value")]),
('cb-lseq-zip','',[(L,LEQ,"        self.0.iter().zip(other.0.iter()).all(|(a, b)| a == b)\n")]),
('cb-lseq-vec','',[(L,LEN+LEQ,"        self.0 == other.0\n")]),
('cb-lseq-any','',[(L,LEN+LEQ,"        self.len() == other.len() && !self.0.iter().zip(&other.0).any(|(a, b)| a != b)\n")]),
('cb-lseq-idx','',[(L,LEQ,"        let mut i = 0;\n        while i < self.len() {\n            if self.0[i] != other.0[i] {\n                return false;\n            }\n            i += 1;\n        }\n        true\n")]),
('cb-lseq-enum','',[(L,LEQ,"        for (i, l) in self.0.iter().enumerate() {\n            if *l != other.0[i] {\n                return false;\n            }\n        }\n        true\n")]),
('cb-hash-vec','',[(L,"        for label in self.0.iter() {\n            label.hash(state)\n        }","        self.0.iter().for_each(|l| l.hash(state));")]),
('cb-hash-whole','',[(L,"        for label in self.0.iter() {\n            label.hash(state)\n        }","        self.0.hash(state);")]),
('cb-pcmp','',[(L,"self.key.partial_cmp(&other.key)","Some(self.cmp(other))")]),
('cb-tpeq-abs','',[(P,TEQ,"        self.timestamp == other.timestamp && (self.value - other.value).abs() < F64_MARGIN\n")]),
('cb-tpeq-if','',[(P,TEQ,"        if self.timestamp != other.timestamp {\n            return false;\n        }\n        let d = self.value - other.value;\n        d < F64_MARGIN && -d < F64_MARGIN\n")]),
('cb-tpeq-order','',[(P,TEQ,"        let near = other.value - self.value < F64_MARGIN && self.value - other.value < F64_MARGIN;\n        near && self.timestamp == other.timestamp\n")]),
('cb-tp-pcmp','',[(P,"        self.timestamp.partial_cmp(&other.timestamp)","        Some(self.cmp(other))")]),
('cb-tp-cmp-if','',[(P,"        self.timestamp.cmp(&other.timestamp)","        if self.timestamp < other.timestamp {\n            Ordering::Less\n        } else if self.timestamp == other.timestamp {\n            Ordering::Equal\n        } else {\n            Ordering::Greater\n        }")]),
('cb-merge-match','',[(C,MERGE,"""        while i < self.len() && j < other.len() {
            match self[i].cmp(&other[j]) {
                std::cmp::Ordering::Equal => {
                    res.push(self[i]);
                    i += 1;
                    j += 1;
                }
                std::cmp::Ordering::Greater => j += 1,
                std::cmp::Ordering::Less => i += 1,
            }
        }
        res
""")]),
('cb-merge-loop','',[(C,MERGE,"""        loop {
            if i >= self.len() || j >= other.len() {
                return res;
            }
            let (a, b) = (self[i], other[j]);
            if a < b {
                i += 1;
            } else if b < a {
                j += 1;
            } else {
                res.push(b);
                j += 1;
                i += 1;
            }
        }
""")]),
('cb-merge-get','',[(C,MERGE,"""        while let (Some(a), Some(b)) = (self.get(i), other.get(j)) {
            if a == b {
                res.push(*a);
            }
            let (x, y) = (*a, *b);
            if x <= y {
                i += 1;
            }
            if y <= x {
                j += 1;
            }
        }
        res
""")]),
('cb-merge-early','',[(C,"        let mut i = 0;","        if self.is_empty() || other.is_empty() {\n            return res;\n        }\n        let mut i = 0;")]),
('cb-merge-filter','',[(C,"        let mut i = 0;\n        let mut j = 0;\n"+MERGE,"        for x in self.iter() {\n            if other.contains(x) {\n                res.push(*x);\n            }\n        }\n        let _ = other.index(0..0);\n        res\n")]),
('cb-merge-bs','',[(C,"        let mut i = 0;\n        let mut j = 0;\n"+MERGE,"        for x in self.iter() {\n            if other.binary_search(x).is_ok() {\n                res.push(*x);\n            }\n        }\n        let _ = other.index(0..0);\n        res\n")]),
('cb-merge-peek','',[(C,"        let mut i = 0;\n        let mut j = 0;\n"+MERGE,"""        let mut i = self.iter().peekable();
        let mut j = other.iter().peekable();
        while let (Some(&&a), Some(&&b)) = (i.peek(), j.peek()) {
            if a == b {
                res.push(a);
            }
            if a <= b {
                i.next();
            }
            if b <= a {
                j.next();
            }
        }
        let _ = other.index(0..0);
        res
""")]),
('cb-is-half','',[(U,"if i < ts.len() / 2","if 2 * i < ts.len()")]),
('cb-is-split','',[(U,FL,"        let half = ts.len() / 2;\n        data2.extend_from_slice(&ts[half..]);\n        data1.extend_from_slice(&ts[..half]);\n")]),
('cb-is-zip','',[(U,"for i in 0..ts.len() {\n            let _v: Vec<u64> = ts.index(i).clone();","for (i, v) in ts.iter().enumerate() {\n            let _v: Vec<u64> = v.clone();")]),
('cb-is-recv','',[(U,GATHER,"""        let _ = (&mut _finish1, &mut _finish2, gather_res as fn(&Receiver<Result<Vec<TimeSeriesId>>>) -> Result<Option<Vec<TimeSeriesId>>>);
        let lost = |_| MonolithErr::InternalErr("Cannot receive value from channel".to_string());
        let next_vec: TimeSeriesIdMatrix = vec![_r1.recv().map_err(lost)??, _r2.recv().map_err(lost)??];
""")]),
('cb-is-while','',[(U,"        loop {\n            if !_finish1","        while !(_finish1 && _finish2) {\n            if !_finish1"),(U,"            if _finish1 && _finish2 {\n                break;\n            }\n","")]),
('cb-is-odd','',[(U,"Ok(intersect_time_series_id_vec(ts)?.order_intersect(&last))","let rest = intersect_time_series_id_vec(ts)?;\n        Ok(last.order_intersect(&rest))")]),
('cb-dir-one','',[(U,ENC,'    format!("{:x}", (start_time as u128) << 64 | end_time as u128)\n')]),
('cb-dir-plus','',[(U,ENC,'    format!("{:x}", ((start_time as u128) << 64) + end_time as u128)\n')]),
('cb-dir-dec','',[(U,DEC,"    let end_time = decimal as u64;\n    let start_time = (decimal >> 64) as u64;\n")]),
('cb-dir-match','',[(U,"    let decimal = u128::from_str_radix(dir_name.as_str(), 16)?;","    let decimal = match u128::from_str_radix(&dir_name, 16) {\n        Ok(d) => d,\n        Err(err) => return Err(MonolithErr::from(err)),\n    };")]),
('cb-conv-new','',[(L,"        Label {\n            key: l.name.clone(),\n            value: l.value.clone(),\n        }","        Label::new(l.name.to_string(), l.value.to_string())")]),
('cb-conv-getters','',[(L,"            key: l.name.clone(),\n            value: l.value.clone(),","            key: l.get_name().to_string(),\n            value: l.get_value().to_owned(),")]),
('cb-conv-loop','',[(S,"        TimeSeries {\n            id: 0,\n            time_points: t.samples.iter().map(TimePoint::from).collect(),","        let mut points = Vec::with_capacity(t.samples.len());\n        for s in t.samples.iter() {\n            points.push(TimePoint::new(s.timestamp as Timestamp, s.value));\n        }\n        TimeSeries {\n            id: 0,\n            time_points: points,")]),
('cb-conv-labels','',[(S,"meta_data: Labels::from_vec(t.labels.to_vec().iter().map(Label::from).collect()),","meta_data: Labels::from_vec(t.labels.iter().map(|l| Label::from_key_value(l.get_name(), l.get_value())).collect()),")]),

('cb-mg-skip','',[(C,"            } else if self.index(i) > other.index(j) {\n                j += 1;","            } else if self.index(i) > other.index(j) {\n                j += if j + 1 < other.len() && self.index(i) > other.index(j + 1) { 2 } else { 1 };")]),
('cb-mg-skip2','',[(C,"            } else if self.index(i) > other.index(j) {\n                j += 1;","            } else if self.index(i) > other.index(j) {\n                if j + 1 < other.len() && other.index(j + 1) < self.index(i) {\n                    j += 1;\n                }\n                j += 1;")]),
('co-mg-skip3','R03',[(C,"            } else if self.index(i) > other.index(j) {\n                j += 1;","            } else if self.index(i) > other.index(j) {\n                if j + 1 < other.len() {\n                    j += 1;\n                }\n                j += 1;")]),
('cb-leq-fast','',[(L,"self.key.eq(&other.key) && self.value.eq(&other.value)","self.key.eq_ignore_ascii_case(&other.key) && self.key == other.key && self.value == other.value")]),
]
