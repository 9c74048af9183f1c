S='src/server.rs'; C='src/chunk/chunk.rs'; D='src/db.rs'; T='src/storage/sled_storage.rs'; X='src/indexer/sled_indexer.rs'; U='src/common/utils.rs'; K='src/storage/tikv_storage.rs'; SC='src/storage/common.rs'; L='src/common/label.rs'
READ="""        if let Err(err) = request.as_reader().read_to_end(&mut content) {
            error!("Cannot read request body, {}", err);
            request.respond(Response::empty(500));
            return;
        }
"""
DECO="""        let _content = match decoder.decompress_vec(content.as_slice()) {
            Ok(_content) => _content,
            Err(err) => {
                error!("Cannot decompress request body, {}", err);
                request.respond(Response::empty(500));
                return;
            }
        };
"""
RTS="""        if series.first().unwrap().timestamp > end_time
            || series.last().unwrap().timestamp < start_time
        {
            return Err(OutOfRangeErr(
                series.first().unwrap().timestamp,
                series.last().unwrap().timestamp,
            ));
        }
        SledStorage::trim_time_series(series, start_time, end_time)
"""
OV="""        if !is_duration_overlap(self.start_time, self.end_time, start_time, end_time) {
            return Err(OutOfRangeErr(self.start_time, self.end_time));
        }
        let candidates"""
DEC="""            let equal_idx = pair.find("=").ok_or(MonolithErr::InternalErr(
                "Cannot parse label data".to_string(),
            ))?;
"""
WT="""        let _c = &self.current_chuck.read().unwrap();
        let (start_time, end_time) = _c.start_end_time();
"""
M=[
('p-read-unwrap','S02',[(S,READ,"        request.as_reader().read_to_end(&mut content).unwrap();\n")]),
('p-deco-unwrap','S02',[(S,DECO,"        let _content = decoder.decompress_vec(content.as_slice()).unwrap();\n")]),
('p-deco-expect','S02',[(S,DECO,"        let _content = decoder.decompress_vec(content.as_slice()).expect(\"body\");\n")]),
('p-write-unwrap','S02',[(S,"match write.map_err(MonolithErr::from).and_then(|_| server.write(write_req)) {","write.unwrap(); match server.write(write_req) {")]),
('p-respond-unwrap','S02',[(S,"""            (_, _) => {
                request.respond(Response::empty(404));""","""            (_, _) => {
                request.respond(Response::empty(404)).unwrap();""")]),
('p-query-assert','S02',[(D,"        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref","        assert!(start_time <= end_time);\n        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref")]),
('p-query-span','S02',[(D,"        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref","        info!(\"span {}\", end_time - start_time);\n        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref")]),
('p-query-span-guard','',[(D,"        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref","        if start_time <= end_time { info!(\"span {}\", end_time - start_time); }\n        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref")]),
('p-query-span-sat','',[(D,"        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref","        info!(\"span {}\", end_time.saturating_sub(start_time));\n        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref")]),
('p-storage-cap','S02',[(T,"        let series = self.get_series_by_id(time_series_id)?.ok_or(NotFoundErr)?;\n","        let mut _wanted: Vec<u64> = Vec::with_capacity((end_time - start_time) as usize);\n        let series = self.get_series_by_id(time_series_id)?.ok_or(NotFoundErr)?;\n")]),
('p-storage-cap2','S02',[(T,"        let series = self.get_series_by_id(time_series_id)?.ok_or(NotFoundErr)?;\n","        let mut _wanted: Vec<u64> = Vec::with_capacity(end_time.saturating_sub(start_time) as usize);\n        let series = self.get_series_by_id(time_series_id)?.ok_or(NotFoundErr)?;\n")]),
('p-storage-cap-ok','',[(T,"        let series = self.get_series_by_id(time_series_id)?.ok_or(NotFoundErr)?;\n","        let series = self.get_series_by_id(time_series_id)?.ok_or(NotFoundErr)?;\n        let mut _wanted: Vec<u64> = Vec::with_capacity(series.len());\n")]),
('p-decode-unwrap','S02',[(X,DEC,"            let equal_idx = pair.find(\"=\").unwrap();\n")]),
('p-decode-split','S02 R02 W06',[(X,DEC,"            let equal_idx = pair.find(\"=\").unwrap_or(pair.len());\n")]),
('p-label-slice','S02',[(L,"    pub fn from_label_matcher(label_matcher: &LabelMatcher) -> Label {\n","    pub fn from_label_matcher(label_matcher: &LabelMatcher) -> Label {\n        if label_matcher.value.len() > 64 {\n            info!(\"long matcher {}\", &label_matcher.value[..64]);\n        }\n")]),
('p-label-first','S02',[(L,"    pub fn from_label_matcher(label_matcher: &LabelMatcher) -> Label {\n","    pub fn from_label_matcher(label_matcher: &LabelMatcher) -> Label {\n        if label_matcher.name.as_bytes()[0] == 95 {\n            info!(\"internal\");\n        }\n")]),
('p-label-first-ok','',[(L,"    pub fn from_label_matcher(label_matcher: &LabelMatcher) -> Label {\n","    pub fn from_label_matcher(label_matcher: &LabelMatcher) -> Label {\n        if !label_matcher.name.is_empty() && label_matcher.name.as_bytes()[0] == 95 {\n            info!(\"internal\");\n        }\n")]),
('p-ts-expect','S02',[(S,"            let _ts: TimeSeries = TimeSeries::from(&time_series);\n","            let _ts: TimeSeries = TimeSeries::from(&time_series);\n            info!(\"from {}\", _ts.time_points().first().expect(\"no samples\").timestamp);\n")]),
('p-idx-contains','S02',[(X,"use crate::","use crate::",)]) if 0 else ('p-ser-last','S02',[(S,"            let _ts: TimeSeries = TimeSeries::from(&time_series);\n","            let _ts: TimeSeries = TimeSeries::from(&time_series);\n            let n = _ts.time_points().len();\n            info!(\"last {}\", _ts.time_points()[n - 1].timestamp);\n")]),
('p-ser-last-ok','',[(S,"            let _ts: TimeSeries = TimeSeries::from(&time_series);\n","            let _ts: TimeSeries = TimeSeries::from(&time_series);\n            let n = _ts.time_points().len();\n            if n > 0 { info!(\"last {}\", _ts.time_points()[n - 1].timestamp); }\n")]),
('p-clamp-in','',[(C,OV,OV.replace("        let candidates","        let start_time = start_time.clamp(self.start_time, end_time);\n        let candidates"))]),
('p-clamp','S02',[(D,'        let res_ref = &mut res;\n','        let res_ref = &mut res;\n        info!("from {}", start_time.clamp(1, end_time));\n')]),
('p-clamp-ok','',[(C,OV,OV.replace("        let candidates","        let start_time = if start_time < self.start_time { self.start_time } else { start_time };\n        let candidates"))]),
('p-chunk-unwrap','S02',[(C,"self.indexer.get_series_metadata_contains_labels(labels)?;","self.indexer.get_series_metadata_contains_labels(labels).unwrap();")]),
('p-insert-unreachable','',[(C,"            return Err(MonolithErr::OutOfRangeErr(self.start_time, self.end_time));\n","            if timepoint.timestamp == std::u64::MAX { unreachable!(); }\n            return Err(MonolithErr::OutOfRangeErr(self.start_time, self.end_time));\n")]),
('p-exit','S02',[(D,WT,WT+"        if timepoints.len() > 100000 { std::process::exit(2); }\n")]),
('p-unreachable','S02',[(D,WT,WT+"        if timepoints.len() > 100000 { unreachable!(); }\n")]),
('p-todo','S02',[(D,WT,WT+"        if labels.len() == 0 { todo!(); }\n")]),
('p-overlap-arith','S02',[(U,"pub fn is_duration_overlap(","pub fn span(a: Timestamp, b: Timestamp) -> u64 { b - a }\npub fn is_duration_overlap("),(C,OV,OV.replace("        let candidates","        info!(\"range {}\", crate::common::utils::span(start_time, end_time));\n        let candidates"))]),
('p-serve-unwrap','S02',[(S,"            let server = self.clone();\n","            let server = self.clone();\n            info!(\"{} bytes\", request.body_length().unwrap());\n")]),
('p-serve-peer','',[(S,"            let server = self.clone();\n","            let server = self.clone();\n            info!(\"{:?}\", request.remote_addr());\n")]),
('p-div','S02',[(S,"            let _ts: TimeSeries = TimeSeries::from(&time_series);\n","            let _ts: TimeSeries = TimeSeries::from(&time_series);\n            let n = _ts.time_points().len();\n            info!(\"labels per point {}\", _ts.meta_data().len() / n);\n")]),
('p-sum-overflow','S02',[(S,"            let _ts: TimeSeries = TimeSeries::from(&time_series);\n","            let _ts: TimeSeries = TimeSeries::from(&time_series);\n            for p in _ts.time_points().iter() { info!(\"until {}\", p.timestamp + 1000); }\n")]),
('p-neg-abs','S02',[(S,"                                q.start_timestamp_ms.max(0) as Timestamp,","                                (q.start_timestamp_ms - 1).max(0) as Timestamp,")]),
('p-clamp-big','S02',[(C,OV,OV.replace("        let candidates","        let start_time = start_time.clamp(self.start_time, end_time);\n        let candidates")),(D,"        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref","        assert!(start_time <= end_time);\n        let mut res = HashMap::<Labels, Vec<TimePoint>>::new();\n        let res_ref")]),
]
