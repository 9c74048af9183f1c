S='src/server.rs'; L='src/common/label.rs'
READ="""        if let Err(err) = request.as_reader().read_to_end(&mut content) {
            error!("Cannot read request body, {}", err);
            request.respond(Response::empty(500));
            return;
        }
"""
DECO="""        let _content = match decoder.decompress_vec(content.as_slice()) {
            Ok(_content) => _content,
            Err(err) => {
                error!("Cannot decompress request body, {}", err);
                request.respond(Response::empty(500));
                return;
            }
        };
"""
WRITE="""                match write.map_err(MonolithErr::from).and_then(|_| server.write(write_req)) {
                    Ok(_) => {
                        request.respond(Response::empty(200));
                    }
                    Err(err) => {
                        error!("{}", format!("Error when write into db, {}", err));
                        request.respond(Response::empty(500));
                    }
                }
"""
QERR="""                        Err(err) => {
                            error!("{}", format!("Error when query against db, {}", err));
                            request.respond(Response::empty(500));
                        }
"""
NF="""            (_, _) => {
                request.respond(Response::empty(404));
            }
"""
ENC="""                            let mut _inner = Vec::new();
                            let _pos = _res_cur.position();
                            _res_cur.set_position(0);
                            _res_cur.read_to_end(&mut _inner);
"""
TYPES="""                        if q.matchers
                            .iter()
                            .any(|m| m.field_type != LabelMatcher_Type::EQ)
                        {
"""
MATCH="""                                    q.matchers
                                        .iter()
                                        .map(Label::from_label_matcher)
                                        .collect::<Vec<Label>>(),
"""
RES="""                            .iter()
                            .map(crate::proto::TimeSeries::from)
                            .collect::<Vec<crate::proto::TimeSeries>>())
"""
COLLECT="""                    .map(|v| -> Result<QueryResult> {
                        Ok(QueryResult {
                            timeseries: RepeatedField::from(v?),
                            unknown_fields: Default::default(),
                            cached_size: Default::default(),
                        })
                    })
                    .collect::<Result<Vec<crate::proto::QueryResult>>>()?,
"""
WL="""        for time_series in write_rq.timeseries.to_vec() {
            let _ts: TimeSeries = TimeSeries::from(&time_series);
            self.db
                .write_time_points(_ts.meta_data().clone(), _ts.time_points().clone())?
        }
"""
LOOP="""            let server = self.clone();
            //do we need a context and a time out in case some thread stuck for some reason?
            workers.install(move || MonolithServer::_process(server, request));
"""
QBODY_A="        Ok(ReadResponse {\n"
M=[
# ---- broken
('sv-read-ignored','S01 W01 R06',[(S,READ,"        let _ = request.as_reader().read_to_end(&mut content);\n")]),
('sv-read-err-ok','W01 S01',[(S,'error!("Cannot read request body, {}", err);\n            request.respond(Response::empty(500));','error!("Cannot read request body, {}", err);\n            request.respond(Response::empty(200));')]),
('sv-read-err-noreply','S01',[(S,'error!("Cannot read request body, {}", err);\n            request.respond(Response::empty(500));','error!("Cannot read request body, {}", err);')]),
('sv-read-short','W01 S01 R06',[(S,READ,"""        content.resize(1 << 16, 0);
        if let Err(err) = request.as_reader().read(&mut content) {
            error!("Cannot read request body, {}", err);
            request.respond(Response::empty(500));
            return;
        }
""")]),
('sv-deco-default','W01 S01',[(S,DECO,"        let _content = decoder.decompress_vec(content.as_slice()).unwrap_or_default();\n")]),
('sv-deco-raw','W01 S01',[(S,DECO,"        let _content = match decoder.decompress_vec(content.as_slice()) {\n            Ok(_content) => _content,\n            Err(_) => content.clone(),\n        };\n")]),
('sv-deco-204','S01',[(S,'error!("Cannot decompress request body, {}", err);\n                request.respond(Response::empty(500));','error!("Cannot decompress request body, {}", err);\n                request.respond(Response::empty(204));')]),
('sv-swap-paths','S01',[(S,"(_, read_path) if read_path == server.read_path =>","(_, read_path) if read_path == server.write_path =>"),(S,"(_, write_path) if write_path == server.write_path","(_, write_path) if write_path == server.read_path")]),
('sv-starts-with','S01',[(S,"(_, read_path) if read_path == server.read_path =>","(_, read_path) if read_path.starts_with(server.read_path) =>")]),
('sv-write-contains','S01',[(S,"(_, write_path) if write_path == server.write_path","(_, write_path) if server.write_path.contains(write_path)")]),
('sv-merge-ignored-read','S01 R06',[(S,"if read.is_err() || read_req.compute_size() == 0 {\n                    if read.is_err()","if read_req.compute_size() == 0 {\n                    if read.is_err()")]),
('sv-merge-and','S01 R06',[(S,"if read.is_err() || read_req.compute_size() == 0","if read.is_err() && read_req.compute_size() == 0")]),
('sv-empty-ok','S01',[(S,"if read.is_err() || read_req.compute_size() == 0","if read.is_err()")]),
('sv-merge-ignored-write','W01 S01',[(S,"match write.map_err(MonolithErr::from).and_then(|_| server.write(write_req))","let _ = write;\n                match server.write(write_req)")]),
('sv-merge-err-200','W01 S01',[(S,"match write.map_err(MonolithErr::from).and_then(|_| server.write(write_req))","match if write.is_err() { Ok(()) } else { server.write(write_req) }")]),
('sv-write-err-200','W01 S01',[(S,'error!("{}", format!("Error when write into db, {}", err));\n                        request.respond(Response::empty(500));','error!("{}", format!("Error when write into db, {}", err));\n                        request.respond(Response::empty(200));')]),
('sv-write-first-reply','W01 S01',[(S,WRITE,"                let _ = write;\n                request.respond(Response::empty(200));\n                let _ = server.write(write_req);\n")]),
('sv-write-err-silent','S01',[(S,'error!("{}", format!("Error when write into db, {}", err));\n                        request.respond(Response::empty(500));','error!("{}", format!("Error when write into db, {}", err));')]),
('sv-qerr-empty-200','S01 R06',[(S,'error!("{}", format!("Error when query against db, {}", err));\n                            request.respond(Response::empty(500));','error!("{}", format!("Error when query against db, {}", err));\n                            request.respond(Response::empty(200));')]),
('sv-qerr-default','S01 R06',[(S,QERR,"""                        Err(err) => {
                            error!("{}", format!("Error when query against db, {}", err));
                            let empty = ReadResponse::new().write_to_bytes().unwrap_or_default();
                            let mut encoder = snap::raw::Encoder::new();
                            let _res = encoder.compress_vec(empty.as_slice()).unwrap();
                            request.respond(Response::from_data(_res.as_slice()));
                        }
""")]),
('sv-nf-200','S01',[(S,NF,"            (_, _) => {\n                request.respond(Response::empty(200));\n            }\n")]),
('sv-nf-500','S01',[(S,NF,"            (_, _) => {\n                request.respond(Response::empty(500));\n            }\n")]),
('sv-nf-none','S01',[(S,NF,"            (_, _) => {}\n")]),
('sv-no-compress','S01 S03',[(S,"Response::from_data(_res.as_slice())","Response::from_data(_inner.as_slice())"),(S,"let _res = encoder.compress_vec(_inner.as_slice()).unwrap();","let _ = encoder.compress_vec(_inner.as_slice()).unwrap();")]),
('sv-no-rewind','S01 S03',[(S,"                            _res_cur.set_position(0);\n","")]),
('sv-one-shot','S01',[(S,LOOP,LOOP+"            break;\n")]),
('sv-filter','S01',[(S,"for request in server.incoming_requests() {","for request in server.incoming_requests().skip(1) {")]),
('sv-opts-swap','S01',[(S,"            read_path: opts.read_path,\n            write_path: opts.write_path,","            read_path: opts.write_path,\n            write_path: opts.read_path,")]),
('sv-clone-swap','S01',[(S,"            read_path: self.read_path.clone(),","            read_path: self.write_path.clone(),")]),
('sv-start-end','S03',[(S,"""                                q.start_timestamp_ms.max(0) as Timestamp,
                                q.end_timestamp_ms.max(0) as Timestamp,""","""                                q.end_timestamp_ms.max(0) as Timestamp,
                                q.start_timestamp_ms.max(0) as Timestamp,""")]),
('sv-start-neg','S03',[(S,"q.start_timestamp_ms.max(0) as Timestamp","q.start_timestamp_ms as Timestamp")]),
('sv-end-abs','S03',[(S,"q.end_timestamp_ms.max(0) as Timestamp","q.end_timestamp_ms.abs() as Timestamp")]),
('sv-end-sec','S03',[(S,"q.end_timestamp_ms.max(0) as Timestamp","(q.end_timestamp_ms.max(0) / 1000) as Timestamp")]),
('sv-start-max1','S03',[(S,"q.start_timestamp_ms.max(0) as Timestamp","q.start_timestamp_ms.max(1) as Timestamp")]),
('sv-end-u32','S03',[(S,"q.end_timestamp_ms.max(0) as Timestamp","(q.end_timestamp_ms.max(0) as u32) as Timestamp")]),
('sv-match-skip','S03 S04',[(S,MATCH,MATCH.replace(".iter()\n",".iter()\n                                        .skip(1)\n"))]),
('sv-match-nonempty','S03 S04',[(S,MATCH,MATCH.replace(".iter()\n",".iter()\n                                        .filter(|m| !m.value.is_empty())\n"))]),
('sv-match-take','S03 S04',[(S,MATCH,MATCH.replace(".iter()\n",".iter()\n                                        .take(8)\n"))]),
('sv-res-filter','S03',[(S,RES,RES.replace(".iter()\n",".iter()\n                            .filter(|s| s.1.len() > 1)\n"))]),
('sv-res-take','S03',[(S,RES,RES.replace(".iter()\n",".iter()\n                            .take(1000)\n"))]),
('sv-res-rev','S03',[(S,COLLECT,COLLECT.replace(".collect",".rev()\n                    .collect"))]),
('sv-res-filtermap','S03 R06',[(S,COLLECT,COLLECT.replace(".collect::<Result<Vec<crate::proto::QueryResult>>>()?",".filter_map(|r| r.ok())\n                    .collect::<Vec<crate::proto::QueryResult>>()"))]),
('sv-res-takewhile','S03 R06',[(S,COLLECT,COLLECT.replace(".collect::<Result<Vec<crate::proto::QueryResult>>>()?",".take_while(|r| r.is_ok())\n                    .filter_map(|r| r.ok())\n                    .collect::<Vec<crate::proto::QueryResult>>()"))]),
('sv-res-default','S03 R06',[(S,"RepeatedField::from(v?)","RepeatedField::from(v.unwrap_or_default())")]),
('sv-res-notfound','R06',[(S,"""                    .map(|v| -> Result<QueryResult> {
                        Ok(QueryResult {
                            timeseries: RepeatedField::from(v?),""","""                    .map(|v| -> Result<QueryResult> {
                        let v = match v {
                            Err(MonolithErr::IoError(_)) => Ok(Vec::new()),
                            v => v,
                        };
                        Ok(QueryResult {
                            timeseries: RepeatedField::from(v?),""")]),
('sv-query-first','S03 R06',[(S,"""                read_rq
                    .queries
                    .iter()
""","""                read_rq
                    .queries
                    .iter()
                    .take(1)
""")]),
('sv-type-gone','S04',[(S,TYPES,"                        if q.matchers.len() > 1000 {\n"),(S,"use crate::proto::{LabelMatcher_Type, ","use crate::proto::{")]),
('sv-type-all','S04',[(S,TYPES,TYPES.replace(".any(",".all("))]),
('sv-type-neq','S04',[(S,TYPES,TYPES.replace("!= LabelMatcher_Type::EQ","== LabelMatcher_Type::NEQ"))]),
('sv-type-re','S04',[(S,TYPES,TYPES.replace("m.field_type != LabelMatcher_Type::EQ","m.field_type == LabelMatcher_Type::NEQ || m.field_type == LabelMatcher_Type::NRE"))]),
('sv-type-first','S04',[(S,TYPES,TYPES.replace(".iter()\n",".iter()\n                            .take(1)\n"))]),
('sv-type-inv','S04',[(S,TYPES,TYPES.replace("!=","=="))]),
('sv-type-filter','S04',[(S,TYPES,"                        if q.matchers.len() > 1000 {\n"),(S,MATCH,MATCH.replace(".iter()\n",".iter()\n                                        .filter(|m| m.field_type == LabelMatcher_Type::EQ)\n"))]),
('sv-type-skipname','S04',[(S,TYPES,TYPES.replace("m.field_type != LabelMatcher_Type::EQ","m.field_type != LabelMatcher_Type::EQ && m.name != \"__name__\""))]),
('sv-match-swap','S03 S04',[(L,"key: label_matcher.name.clone(),","key: label_matcher.value.clone(),")]),
('sv-w-first','W01',[(S,WL,WL+"        \n".replace("        \n","")),(S,"for time_series in write_rq.timeseries.to_vec() {","for time_series in write_rq.timeseries.to_vec().into_iter().take(1) {")]),
('sv-w-skip','W01',[(S,"            let _ts: TimeSeries = TimeSeries::from(&time_series);","            if time_series.labels.len() < 2 {\n                continue;\n            }\n            let _ts: TimeSeries = TimeSeries::from(&time_series);")]),
('sv-w-break','W01',[(S,"            let _ts: TimeSeries = TimeSeries::from(&time_series);","            if time_series.samples.len() == 0 {\n                break;\n            }\n            let _ts: TimeSeries = TimeSeries::from(&time_series);")]),
('sv-w-ignored','W01',[(S,WL,WL.replace("            self.db\n","            let _ = self.db\n").replace(".clone())?",".clone());"))]),
('sv-w-range','W01',[(S,WL,WL.replace("            self.db\n","            let r = self.db\n").replace(".clone())?",".clone());\n            if let Err(MonolithErr::InternalErr(m)) = r {\n                return Err(MonolithErr::InternalErr(m));\n            }"))]),
('sv-w-last','W01',[(S,WL,WL.replace("        for","        let mut last = Ok(());\n        for").replace("            self.db\n","            last = self.db\n").replace(".clone())?",".clone());")),(S,"        Ok(())\n    }\n}\n\nimpl<'a, S, I> Clone","        last\n    }\n}\n\nimpl<'a, S, I> Clone")]),
('sv-w-nolabels','W01 S03',[(S,"_ts.meta_data().clone(), _ts.time_points()","Labels::from_vec(_ts.meta_data().vec().iter().cloned().filter(|l| !l.value().is_empty()).collect()), _ts.time_points()")]),
# ---- benign
('sb-read-match','',[(S,READ,"""        match request.as_reader().read_to_end(&mut content) {
            Ok(_) => {}
            Err(err) => {
                error!("Cannot read request body, {}", err);
                request.respond(Response::empty(500));
                return;
            }
        }
""")]),
('sb-400','',[(S,'error!("Cannot decompress request body, {}", err);\n                request.respond(Response::empty(500));','error!("Cannot decompress request body, {}", err);\n                request.respond(Response::empty(400));')]),
('sb-if-else','',[(S,"""        match (request.method(), request.url()) {
            (_, read_path) if read_path == server.read_path => {""","""        match request.url() {
            read_path if read_path == server.read_path => {"""),(S,"(_, write_path) if write_path == server.write_path","write_path if write_path == server.write_path"),(S,"            (_, _) => {","            _ => {")]),
('sb-write-order','',[(S,WRITE,"""                if let Err(err) = write {
                    error!("Cannot read content from write request {}", err);
                    request.respond(Response::empty(400));
                    return;
                }
                if let Err(err) = server.write(write_req) {
                    error!("Error when write into db, {}", err);
                    request.respond(Response::empty(500));
                    return;
                }
                request.respond(Response::empty(200));
""")]),
('sb-status-var','',[(S,WRITE,"""                let status = match write.map_err(MonolithErr::from).and_then(|_| server.write(write_req)) {
                    Ok(_) => 200,
                    Err(err) => {
                        error!("{}", format!("Error when write into db, {}", err));
                        500
                    }
                };
                request.respond(Response::empty(status));
""")]),
('sb-into-inner','',[(S,ENC,"                            let _inner = _res_cur.into_inner();\n")]),
('sb-reply-helper','',[(S,"    pub fn query(&self, read_rq","    fn fail(request: Request, status: u16) {\n        let _ = request.respond(Response::empty(status));\n    }\n\n    pub fn query(&self, read_rq"),(S,NF,"            (_, _) => Self::fail(request, 404),\n")]),
('sb-empty-queries','',[(S,"read_req.compute_size() == 0","read_req.queries.is_empty()")]),
('sb-parse','',[(S,"""                let mut write_req = WriteRequest::new();
                let write = write_req.merge_from(&mut input_stream);
                match write.map_err(MonolithErr::from).and_then(|_| server.write(write_req)) {""","""                let mut write_req = WriteRequest::new();
                let done = match write_req.merge_from(&mut input_stream) {
                    Ok(_) => server.write(write_req),
                    Err(err) => Err(MonolithErr::from(err)),
                };
                match done {""")]),
('sb-loop-query','',[(S,"            results: RepeatedField::from(\n","            results: RepeatedField::from_vec(\n")]),
('sb-bound-if','',[(S,"q.start_timestamp_ms.max(0) as Timestamp","if q.start_timestamp_ms < 0 { 0 } else { q.start_timestamp_ms as Timestamp }")]),
('sb-bound-std','',[(S,"q.end_timestamp_ms.max(0) as Timestamp","std::cmp::max(0, q.end_timestamp_ms) as u64")]),
('sb-bound-try','',[(S,"q.end_timestamp_ms.max(0) as Timestamp","std::convert::TryFrom::try_from(q.end_timestamp_ms).unwrap_or(0)")]),
('sb-type-all','',[(S,TYPES,TYPES.replace("if q.matchers","if !q.matchers").replace(".any(",".all(").replace("!= L","== L"))]),
('sb-type-for','',[(S,TYPES,"""                        let mut bad = false;
                        for m in q.matchers.iter() {
                            if m.field_type != LabelMatcher_Type::EQ {
                                bad = true;
                            }
                        }
                        if bad {
""")]),
('sb-type-for2','',[(S,TYPES+"""                            return Err(MonolithErr::InternalErr(
                                "only equality matchers are supported".to_string(),
                            ));
                        }
""","""                        for m in q.get_matchers() {
                            match m.get_field_type() {
                                LabelMatcher_Type::EQ => {}
                                _ => return Err(MonolithErr::OptionErr),
                            }
                        }
""")]),
('sb-type-outer','',[(S,TYPES+"""                            return Err(MonolithErr::InternalErr(
                                "only equality matchers are supported".to_string(),
                            ));
                        }
""",""),(S,QBODY_A,"""        for q in read_rq.queries.iter() {
            if q.matchers.iter().any(|m| m.field_type != LabelMatcher_Type::EQ) {
                return Err(MonolithErr::OptionErr);
            }
        }
"""+QBODY_A)]),
('sb-type-helper','',[(S,TYPES,"                        if !Self::only_eq(&q.matchers) {\n"),(S,"    pub fn query(&self, read_rq","    fn only_eq(m: &[crate::proto::LabelMatcher]) -> bool {\n        m.iter().filter(|m| m.field_type != LabelMatcher_Type::EQ).count() == 0\n    }\n\n    pub fn query(&self, read_rq")]),
('sb-type-move','',[(S,TYPES+"""                            return Err(MonolithErr::InternalErr(
                                "only equality matchers are supported".to_string(),
                            ));
                        }
""",""),(S,MATCH,"""                                    q.matchers
                                        .iter()
                                        .map(|m| match m.field_type {
                                            LabelMatcher_Type::EQ => Ok(Label::from_label_matcher(m)),
                                            _ => Err(MonolithErr::OptionErr),
                                        })
                                        .collect::<Result<Vec<Label>>>()?,
""")]),
('sb-match-for','',[(S,"                        Ok(self\n","                        let mut labels = Vec::new();\n                        for m in q.matchers.iter() {\n                            labels.push(Label::from_label_matcher(m));\n                        }\n                        Ok(self\n"),(S,MATCH,"                                    labels,\n")]),
('sb-res-for','',[(S,COLLECT,COLLECT.replace("""                    .map(|v| -> Result<QueryResult> {
                        Ok(QueryResult {
                            timeseries: RepeatedField::from(v?),
                            unknown_fields: Default::default(),
                            cached_size: Default::default(),
                        })
                    })""","""                    .map(|v| -> Result<QueryResult> {
                        let mut res = QueryResult::new();
                        res.set_timeseries(RepeatedField::from(v?));
                        Ok(res)
                    })"""))]),
('sb-w-iter','',[(S,WL,"""        for time_series in write_rq.timeseries.iter() {
            let _ts: TimeSeries = time_series.into();
            let labels = _ts.meta_data().clone();
            self.db.write_time_points(labels, _ts.time_points().to_vec())?;
        }
""")]),
('sb-w-tryfor','',[(S,WL+"\n        Ok(())\n","""        write_rq.timeseries.iter().map(TimeSeries::from).try_for_each(|ts| {
            self.db.write_time_points(ts.meta_data().clone(), ts.time_points().clone())
        })
""")]),
('sb-w-skip-empty','',[(S,"            let _ts: TimeSeries = TimeSeries::from(&time_series);","            if time_series.samples.is_empty() {\n                continue;\n            }\n            let _ts: TimeSeries = TimeSeries::from(&time_series);")]),
('sb-w-firsterr','',[(S,WL+"\n        Ok(())\n","""        for time_series in write_rq.timeseries.to_vec() {
            let _ts: TimeSeries = TimeSeries::from(&time_series);
            if let Err(err) = self.db.write_time_points(_ts.meta_data().clone(), _ts.time_points().clone()) {
                return Err(err);
            }
        }
        return Ok(());
""")]),
('sb-serve-while','',[(S,"        for request in server.incoming_requests() {","        let mut requests = server.incoming_requests();\n        while let Some(request) = requests.next() {")]),
]
