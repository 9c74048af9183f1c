D='src/db.rs'
QCUR="""            if _c.is_with_range(start_time, end_time) {
                for ref t in _c.query(labels.clone(), start_time, end_time)? {
                    res_ref.insert("""
M=[
('d-q-norev-old','R05',[(D,"""                            .into_iter()
                            .rev()
                            .collect::<Vec<TimePoint>>();""","""                            .into_iter()
                            .collect::<Vec<TimePoint>>();""")]),
('d-q-norev-cur','R05',[(D,"t.time_points().clone().into_iter().rev().collect(),","t.time_points().clone().into_iter().collect(),")]),
('d-q-fwd','R05',[(D,"in chunks.iter().rev() {","in chunks.iter() {")]),
('d-q-break','R05',[(D,"""                    }
                };
            }
        }
        //reverse""","""                    }
                } else { break; };
            }
        }
        //reverse""")]),
('d-q-overwrite','R05',[(D,"""                            Some(val) => {
                                val.append(&mut current_val);
                            }""","""                            Some(val) => {
                                *val = current_val;
                            }""")]),
('d-q-swallow-old','R06',[(D,"""                if _c.is_with_range(start_time, end_time) {
                    for ref t in _c.query(labels.clone(), start_time, end_time)? {""","""                if _c.is_with_range(start_time, end_time) {
                    for ref t in _c.query(labels.clone(), start_time, end_time).unwrap_or_default() {""")]),
('d-q-swallow-cur','R06',[(D,QCUR,QCUR.replace(')? {',').unwrap_or(Vec::new()) {'))]),
('d-q-take','R05',[(D,"in chunks.iter().rev() {","in chunks.iter().rev().take(100) {")]),
('d-q-skipcur','R05',[(D,"            //check current chunk\n            if _c.is_with_range(start_time, end_time) {","            //check current chunk\n            if _c.is_with_range(start_time, end_time) && end_time > start_time {")]),
('d-q-range-arg','R05',[(D,"for ref t in _c.query(labels.clone(), start_time, end_time)? {\n                        let","for ref t in _c.query(labels.clone(), start_time, _c.start_end_time().1)? {\n                        let")]),
('d-q-unlock','K03',[(D,"""        let _c = &self.current_chuck.read().unwrap();
        {
            //check current chunk""","""        {
            let _c = &self.current_chuck.read().unwrap();
            //check current chunk""")]),
('d-q-filter-empty-res','R05',[(D,"            .map(|o| o.unwrap())\n","            .map(|o| o.unwrap())\n            .skip(1)\n")]),
('d-q-nofinalrev','R05',[(D,"points.iter().cloned().rev().collect","points.iter().cloned().collect")]),
('d-w-ignore','W01',[(D,"        if !res.is_empty() {","        if res.len() > 1 {")]),
('d-w-strict','W03',[(D,"tp.timestamp <= end_time &&","tp.timestamp < end_time &&")]),
('d-w-take','W01',[(D,"            .map(|tp| _c.insert(labels.clone(), tp))\n            .filter","            .take(1000)\n            .map(|tp| _c.insert(labels.clone(), tp))\n            .filter")]),
('d-w-one','W01',[(D,"_c.insert(labels, timepoint)?;","_c.insert(labels, timepoint);")]),
('d-w-ignoreall','W01',[(D,"""            return Err(MonolithErr::InternalErr(
                "multiple time point cannot insert".to_string(),
            ));""","")]),
('d-w-oor-ignored','W01',[(D,".filter(|res| res.is_err())",".filter(|res| match res { Err(MonolithErr::OutOfRangeErr(_, _)) => false, Err(_) => true, _ => false })")]),
('d-s-twostep','K03',[(D,"""            self.secondary_chunks.write().unwrap().push(current.clone());
            *current = Arc::new(chunk); //crate new one
        }""","""            let old = current.clone();
            *current = Arc::new(chunk); //crate new one
            drop(current);
            self.secondary_chunks.write().unwrap().push(old);
        }""")]),
# benign
('b-q-loopquery','',[(D,"""                        match res_ref.get_mut(t.meta_data()) {
                            Some(val) => {
                                val.append(&mut current_val);
                            }
                            None => {
                                res_ref.insert(t.meta_data().clone(), current_val);
                            }
                        };""","""                        res_ref.entry(t.meta_data().clone()).or_insert_with(Vec::new).append(&mut current_val);""")]),
('b-q-extend','',[(D,"val.append(&mut current_val);","val.extend(current_val.into_iter());")]),
('b-q-result','',[(D,"""        let res_vec: Vec<(Labels, Vec<TimePoint>)> = res
            .keys()
            .map(|k| res.get_key_value(k))
            .filter(|o| o.is_some())
            .map(|o| o.unwrap())
            .map(|(labels, points)| {
                (
                    labels.clone(),
                    points.iter().cloned().rev().collect::<Vec<TimePoint>>(),
                )
            })
            .collect();
        Ok(res_vec)""","""        let mut out = Vec::with_capacity(res.len());
        for (labels, mut points) in res {
            points.reverse();
            out.push((labels, points));
        }
        Ok(out)""")]),
('b-q-helper','',[(D,"""    fn swap(&self, start_time: Timestamp) -> Result<()> {""","""    fn merge_into(res: &mut HashMap<Labels, Vec<TimePoint>>, labels: &Labels, points: &Vec<TimePoint>) {
        let mut vals: Vec<TimePoint> = points.iter().rev().cloned().collect();
        if let Some(v) = res.get_mut(labels) { v.append(&mut vals); return; }
        res.insert(labels.clone(), vals);
    }

    fn swap(&self, start_time: Timestamp) -> Result<()> {"""),(D,"""                        let mut current_val = t
                            .time_points()
                            .clone()
                            .into_iter()
                            .rev()
                            .collect::<Vec<TimePoint>>();
                        match res_ref.get_mut(t.meta_data()) {
                            Some(val) => {
                                val.append(&mut current_val);
                            }
                            None => {
                                res_ref.insert(t.meta_data().clone(), current_val);
                            }
                        };""","""                        Self::merge_into(res_ref, t.meta_data(), t.time_points());"""),
  (D,"""                    res_ref.insert(
                        t.meta_data().clone(),
                        t.time_points().clone().into_iter().rev().collect(),
                    );""","""                    Self::merge_into(res_ref, t.meta_data(), t.time_points());""")]),
('b-q-continue','',[(D,"""                if _c.is_with_range(start_time, end_time) {
                    for ref t in _c.query(labels.clone(), start_time, end_time)? {
                        let""","""                if !_c.is_with_range(start_time, end_time) { continue; }
                {
                    for ref t in _c.query(labels.clone(), start_time, end_time)? {
                        let""")]),
('b-q-indexloop','',[(D,"            for _c in chunks.iter().rev() {","            let n = chunks.len();\n            for k in 0..n {\n                let _c = &chunks[n - 1 - k];")]),
('b-q-clone-snapshot','',[(D,"let chunks = &self.secondary_chunks.read().unwrap();","let chunks: Vec<Arc<Chunk<S, I>>> = self.secondary_chunks.read().unwrap().clone();")]),
('b-w-loop','',[(D,"""        let res = timepoints
            .into_iter()
            .filter(|tp| {
                tp.timestamp >= start_time && tp.timestamp <= end_time && tp.timestamp != 0
            })
            .map(|tp| _c.insert(labels.clone(), tp))
            .filter(|res| res.is_err())
            .collect::<Vec<_>>();
        if !res.is_empty() {
            error!("{} time point failed to insert", res.len());""","""        let mut failed = 0;
        for tp in timepoints {
            if tp.timestamp == 0 || tp.timestamp < start_time || tp.timestamp > end_time { continue; }
            if let Err(_) = _c.insert(labels.clone(), tp) { failed += 1; }
        }
        if failed > 0 {
            error!("{} time point failed to insert", failed);""")]),
('b-w-early','',[(D,"""        let res = timepoints
            .into_iter()
            .filter(|tp| {
                tp.timestamp >= start_time && tp.timestamp <= end_time && tp.timestamp != 0
            })
            .map(|tp| _c.insert(labels.clone(), tp))
            .filter(|res| res.is_err())
            .collect::<Vec<_>>();
        if !res.is_empty() {
            error!("{} time point failed to insert", res.len());
            return Err(MonolithErr::InternalErr(
                "multiple time point cannot insert".to_string(),
            ));
        }
        Ok(())""","""        for tp in timepoints.into_iter().filter(|tp| start_time <= tp.timestamp && tp.timestamp <= end_time && tp.timestamp != 0) {
            _c.insert(labels.clone(), tp)?;
        }
        Ok(())""")]),
('b-w-any','',[(D,"""            .filter(|res| res.is_err())
            .collect::<Vec<_>>();
        if !res.is_empty() {""","""            .filter(|res| res.is_err())
            .count();
        if res > 0 {"""),(D,'res.len());','res);')]),
('b-s-order','',[(D,"""            self.secondary_chunks.write().unwrap().push(current.clone());
            *current = Arc::new(chunk); //crate new one""","""            let mut older = self.secondary_chunks.write().unwrap();
            older.push(Arc::clone(&current));
            *current = Arc::new(chunk); //crate new one""")]),
('b-s-replace','',[(D,"""            self.secondary_chunks.write().unwrap().push(current.clone());
            *current = Arc::new(chunk); //crate new one""","""            let old = std::mem::replace(&mut *current, Arc::new(chunk));
            self.secondary_chunks.write().unwrap().push(old);""")]),
]
