C='src/chunk/chunk.rs'
M=[
('c-window-strict','W03',[(C,'self.end_time >= *timestamp','self.end_time > *timestamp')]),
('c-window-start','W03',[(C,'self.start_time <= *timestamp','self.start_time < *timestamp')]),
('c-ignore-write','W01',[(C,"                .write_time_point(new_id, timepoint.timestamp, timepoint.value)?;","                .write_time_point(new_id, timepoint.timestamp, timepoint.value);")]),
('c-data-before-index','W05',[(C,"""            self.indexer.create_index(labels.clone(), new_id)?;
            self.storage
                .write_time_point(new_id, timepoint.timestamp, timepoint.value)?;""","""            self.storage
                .write_time_point(new_id, timepoint.timestamp, timepoint.value)?;
            self.indexer.create_index(labels.clone(), new_id)?;""")]),
('c-guard-dropped','K01',[(C,"""        let id = self.indexer.get_series_id_by_labels(labels.clone())?;""","""        drop(_m);
        let id = self.indexer.get_series_id_by_labels(labels.clone())?;""")]),
('c-insert-readlock','K01',[(C,"""            .write()
            .expect("Poisoned mutex when try to insert into chunk");""","""            .read()
            .expect("Poisoned mutex when try to insert into chunk");""")]),
('c-query-underscore','K01',[(C,"""        let _m = self
            .mutex
            .read()""","""        let _ = self
            .mutex
            .read()""")]),
('c-query-break','R04',[(C,"""            if data.len() == 0 {
                continue; //skip empty series""","""            if data.len() == 0 {
                break; //skip empty series""")]),
('c-query-swallow','R06',[(C,"Err(MonolithErr::OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => continue,","Err(_) => continue,")]),
('c-query-len1','R04',[(C,"if data.len() == 0 {","if data.len() <= 1 {")]),
('c-query-swapargs','R04',[(C,"read_time_series(id, start_time, end_time)","read_time_series(id, start_time, self.end_time)")]),
('c-overlap','R04',[('src/common/utils.rs',None,'')]) if 0 else ('c-idgen0','W04',[('src/common/mod.rs','fetch_add(1','fetch_add(0')]),
('c-lookup-swallow','W04',[(C,"self.indexer.get_series_id_by_labels(labels.clone())?;","self.indexer.get_series_id_by_labels(labels.clone()).unwrap_or(None);")]),
('b-chunk-match','',[(C,"""        if id.is_none() {
            //insert new series
            let new_id = self.id_generator.next();
            self.indexer.create_index(labels.clone(), new_id)?;
            self.storage
                .write_time_point(new_id, timepoint.timestamp, timepoint.value)?;
        } else {
            //only one, skip the choose process
            self.storage
                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value)?;
        }

        Ok(())""","""        let series = match id {
            Some(known) => known,
            None => {
                let new_id = self.id_generator.next();
                self.indexer.create_index(labels, new_id)?;
                new_id
            }
        };
        let TimePoint { timestamp, value } = timepoint;
        self.storage.write_time_point(series, timestamp, value)""")]),
('b-chunk-helper','',[(C,"""        let id = self.indexer.get_series_id_by_labels(labels.clone())?;
        if id.is_none() {""","""        self.do_insert(labels, timepoint)
    }

    fn do_insert(&self, labels: Labels, timepoint: TimePoint) -> Result<()> {
        let id = self.indexer.get_series_id_by_labels(labels.clone())?;
        if id.is_none() {""")]),
('b-query-iter','',[(C,"""        let mut res = Vec::new();
        for (id, metadata) in candidates {
            let data = match self.storage.read_time_series(id, start_time, end_time) {
                // this series has no point in the range
                Err(MonolithErr::OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => continue,
                data => data?,
            };
            if data.len() == 0 {
                continue; //skip empty series
            }
            res.push(TimeSeries::from_data(id, metadata, data))
        }
        Ok(res)""","""        candidates
            .into_iter()
            .filter_map(|(id, metadata)| {
                match self.storage.read_time_series(id, start_time, end_time) {
                    Err(MonolithErr::OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => None,
                    Err(e) => Some(Err(e)),
                    Ok(data) => {
                        if data.is_empty() {
                            None
                        } else {
                            Some(Ok(TimeSeries::from_data(id, metadata, data)))
                        }
                    }
                }
            })
            .collect::<Result<Vec<TimeSeries>>>()""")]),
('b-query-while','',[(C,"""        for (id, metadata) in candidates {
            let data""","""        let mut it = candidates.into_iter();
        while let Some((id, metadata)) = it.next() {
            let data""")]),
('b-window-range','',[(C,'return self.start_time <= *timestamp && self.end_time >= *timestamp;','(self.start_time..=self.end_time).contains(timestamp)')]),
('b-overlap-not','',[('src/common/utils.rs',None,'\n// end\n')]),
]
