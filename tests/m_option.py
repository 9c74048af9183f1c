O='src/common/option.rs'; B='src/bin/monolith-server.rs'; T='src/backend/tikv.rs'; L='src/lib.rs'
SING=open('/repo/'+B).read(); SING=SING[SING.index("    let tikv_backend_singleton = if"):SING.index("    macro_rules! build_storage")]
MATCH=open('/repo/'+B).read(); MATCH=MATCH[MATCH.index("    match db_opts.storage.as_str() {"):]
PORTC="        if port > 65535 || port < 1024 {\n            return Err(MonolithErr::OptionErr);\n        };\n"
FC="""        if config_file.dry_run {
            Ok(TiKvRawBackendSingleton {
                config: Config::new(Vec::<String>::new()),
                dry_run: true,
            })
        } else {
            TiKvRawBackendSingleton::new(Config::new(config_file.pd_endpoints))
        }
"""
M=[
('o-swap-names','O01',[(O,"storage: matches.value_of(STORAGE_ARG)","storage: matches.value_of(INDEXER_ARG)")]),
('o-paths-swapped','O01',[(O,"write_path: matchers.value_of(WRITE_PATH)","write_path: matchers.value_of(READ_PATH)")]),
('o-chunk-millis','O01',[(O,"Duration::from_secs(chunk_size_in_sec)","Duration::from_millis(chunk_size_in_sec)")]),
('o-chunk-plus','O01',[(O,"Duration::from_secs(chunk_size_in_sec)","Duration::from_secs(chunk_size_in_sec + 1)")]),
('o-chunk-default','O01',[(O,"String::from(chunk_size_str).parse()?","String::from(chunk_size_str).parse().unwrap_or(12000)")]),
('o-port-ge','O01',[(O,"port > 65535","port >= 65535")]),
('o-port-le','O01',[(O,"port < 1024 {","port <= 1024 {")]),
('o-port-99999','O01',[(O,"port > 65535","port > 65536")]),
('o-port-and','O01',[(O,"port > 65535 || port < 1024","port > 65535 && port < 1024")]),
('o-port-nocheck','O01',[(O,PORTC,"")]),
('o-port-u16-wrap','O01',[(O,'parse::<i32>()?;','parse::<u32>()? as u16 as i32;')]),
('o-worker-from-port','O01',[(O,"value_of(WORKER_NUM)","value_of(PORT)")]),
('o-worker-unwrap','O01',[(O,"parse::<usize>()?;","parse::<usize>().unwrap_or(DEFAULT_WORKER_NUM);")]),
('o-worker-panic','O01',[(O,"parse::<usize>()?;","parse::<usize>().unwrap();")]),
('o-tikv-none','O01',[(O,"matches.value_of(TIKV_CONFIG).map(PathBuf::from)","matches.value_of(TIKV_CONFIG).and_then(|p| if p.len() > 3 { Some(PathBuf::from(p)) } else { None })")]),
('o-tikv-wrong','O01',[(O,"matches.value_of(TIKV_CONFIG)","matches.value_of(FILE_DIR_ARG)")]),
('o-base-dir-cwd','O01',[(O,"PathBuf::from_str(matches.value_of(FILE_DIR_ARG).unwrap())?","current_dir().unwrap()")]),
('o-decl-flag','O01',[(B,"                .takes_value(true),\n","")]),
('o-decl-default','O01',[(B,".default_value(DEFAULT_WRITE_PATH)",".default_value(DEFAULT_READ_PATH)")]),
('o-decl-default-port','O01',[(B,".default_value(default_port.as_str())",".default_value(default_worker_num.as_str())")]),
('o-decl-long','O01',[(B,".short(\"i\")\n                .long(INDEXER_ARG)",".short(\"i\")\n                .long(STORAGE_ARG)")]),
('o-decl-short','O01',[(B,".short(\"i\")",".short(\"dir\")"),(B,".short(\"dir\")\n                .long(FILE",".short(\"i\")\n                .long(FILE")]),
('o-decl-missing','O01',[(B,"            Arg::with_name(WRITE_PATH)\n                .long(WRITE_PATH)\n                .default_value(DEFAULT_WRITE_PATH),\n","")]),
('o-decl-nodefault','O01',[(B,".long(READ_PATH)\n                .default_value(DEFAULT_READ_PATH)",".long(READ_PATH)\n                .takes_value(true)")]),
('o-decl-chunk','O01',[(B,".default_value(DEFAULT_CHUNK_SIZE)",".default_value(\"1200\")")]),
('o-const-read','O01',[(L,'pub const READ_PATH: &str = "read_path";','pub const READ_PATH: &str = "write_path";')]),
('d-swap','O02',[(B,"                let storage_builder = build_storage!(Sled);\n                let indexer_builder = build_indexer!(TiKV);\n                start_server!(SledStorage, TiKvIndexer, storage_builder, indexer_builder);","                let storage_builder = build_storage!(TiKV);\n                let indexer_builder = build_indexer!(Sled);\n                start_server!(TiKvStorage, SledIndexer, storage_builder, indexer_builder);")]),
('d-default-sled','O02',[(B,"            _ => exit(1),\n        },\n        _ => exit(1),","            _ => exit(1),\n        },\n        _ => {\n            let storage_builder = build_storage!(Sled);\n            let indexer_builder = build_indexer!(Sled);\n            start_server!(SledStorage, SledIndexer, storage_builder, indexer_builder);\n        }")]),
('d-exit0','O02',[(B,"            _ => exit(1),\n        },\n        _ => exit(1),","            _ => exit(1),\n        },\n        _ => exit(0),")]),
('d-return','O02',[(B,"            _ => exit(1),\n        },\n        _ => exit(1),","            _ => exit(1),\n        },\n        _ => error!(\"unknown storage\"),")]),
('d-any-indexer','O02',[(B,"            TIKV_BACKEND => {\n                let storage_builder = build_storage!(TiKV);\n                let indexer_builder = build_indexer!(TiKV);\n                start_server!(TiKvStorage, TiKvIndexer, storage_builder, indexer_builder);\n            }\n            SLED_BACKEND => {\n                let storage_builder = build_storage!(TiKV);\n                let indexer_builder = build_indexer!(Sled);\n                start_server!(TiKvStorage, SledIndexer, storage_builder, indexer_builder);\n            }\n            _ => exit(1),","            SLED_BACKEND => {\n                let storage_builder = build_storage!(TiKV);\n                let indexer_builder = build_indexer!(Sled);\n                start_server!(TiKvStorage, SledIndexer, storage_builder, indexer_builder);\n            }\n            _ => {\n                let storage_builder = build_storage!(TiKV);\n                let indexer_builder = build_indexer!(TiKV);\n                start_server!(TiKvStorage, TiKvIndexer, storage_builder, indexer_builder);\n            }")]),
('d-prefix','O02',[(B,"match db_opts.storage.as_str() {\n        TIKV_BACKEND =>","match db_opts.storage.as_str() {\n        _ if db_opts.storage.starts_with('t') =>")]),
('d-conf-ignored','O02',[(B,SING,SING.replace("if db_opts.tikv_config.is_some()","if db_opts.tikv_config.is_none()").replace("db_opts.tikv_config.clone().unwrap().as_path(),","std::path::Path::new(\"tikv.yml\"),"))]),
('d-always-dry','O02',[(B,SING,"    let tikv_backend_singleton = Some(TiKvRawBackendSingleton::default());\n\n")]),
('d-conf-and','O02',[(B,"db_opts.indexer == TIKV_BACKEND || db_opts.storage == TIKV_BACKEND)\n","db_opts.indexer == TIKV_BACKEND && db_opts.storage == TIKV_BACKEND)\n")]),
('d-default-opts','O02',[(B,"                db_opts,\n","                DbOpts::default(),\n")]),
('d-server-default','O02',[(B,"MonolithServer::new(server_opts, db)","MonolithServer::new(ServerOpts::default(), db)")]),
('d-dry-inv','O02',[(T,"        if config_file.dry_run {","        if !config_file.dry_run {")]),
('d-dry-flag','O02',[(T,"                config: Config::new(Vec::<String>::new()),\n                dry_run: true,\n            })\n        } else","                config: Config::new(Vec::<String>::new()),\n                dry_run: false,\n            })\n        } else")]),
('d-endpoints','O02',[(T,"TiKvRawBackendSingleton::new(Config::new(config_file.pd_endpoints))","TiKvRawBackendSingleton::new(Config::new(Vec::<String>::new()))")]),
('d-inst-inv','O02',[(T,"        Ok(if self.dry_run {","        Ok(if !self.dry_run {")]),
('d-empty-dry','O02',[(T,"        if config_file.dry_run {","        if config_file.dry_run || config_file.pd_endpoints.len() < 2 {")]),
('d-client-default','O02',[(T,"RawClient::new(self.config.clone())","RawClient::new(Config::new(vec![\"127.0.0.1:2379\"]))")]),
# benign
('b-port-range','',[(O,PORTC,"        if !(1024..=65535).contains(&port) {\n            return Err(MonolithErr::OptionErr);\n        }\n")]),
('b-port-match','',[(O,PORTC,"        match port {\n            1024..=65535 => {}\n            _ => return Err(MonolithErr::OptionErr),\n        }\n")]),
('b-port-consts','',[(O,PORTC,"        const MIN_PORT: i32 = 1024;\n        const MAX_PORT: i32 = 65535;\n        let valid = MIN_PORT <= port && port <= MAX_PORT;\n        if !valid {\n            return Err(MonolithErr::OptionErr);\n        }\n")]),
('b-port-u16','',[(O,'parse::<i32>()?;','parse::<u16>()? as i32;')]),
('b-helper','',[(O,"impl<'a> ServerOpts<'a> {\n","impl<'a> ServerOpts<'a> {\n    fn text(m: &'a ArgMatches, name: &str) -> &'a str {\n        m.value_of(name).unwrap()\n    }\n"),(O,"write_path: matchers.value_of(WRITE_PATH).unwrap()","write_path: Self::text(matchers, WRITE_PATH)")]),
('b-parse-direct','',[(O,"        let chunk_size_in_sec: u64 = String::from(chunk_size_str).parse()?;","        let chunk_size_in_sec = chunk_size_str.parse::<u64>()?;")]),
('b-fromstr','',[(O,"String::from(chunk_size_str).parse()?","u64::from_str(chunk_size_str)?")]),
('b-millis','',[(O,"Duration::from_secs(chunk_size_in_sec)","Duration::from_secs(1) * chunk_size_in_sec as u32")]),
('b-pathbuf','',[(O,"PathBuf::from_str(matches.value_of(FILE_DIR_ARG).unwrap())?","PathBuf::from(matches.value_of(FILE_DIR_ARG).unwrap())"),(O,"use std::str::FromStr;","#[allow(unused_imports)]\nuse std::str::FromStr;")]),
('b-tikv-match','',[(O,"matches.value_of(TIKV_CONFIG).map(PathBuf::from)","match matches.value_of(TIKV_CONFIG) { Some(p) => Some(PathBuf::from(p)), None => None }")]),
('b-expect','',[(O,"value_of(PORT).unwrap()","value_of(PORT).expect(\"port has a default\")")]),
('b-arg-calls','',[(B,"        .args(&[","        .arg(Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG).takes_value(true).help(\"path of the config file\"))\n        .args(&["),(B,"            Arg::with_name(TIKV_CONFIG)\n                .long(TIKV_CONFIG)\n                .takes_value(true),\n","")]),
('b-port-lit','',[(B,".default_value(default_port.as_str())",".default_value(\"9001\")")]),
('b-dispatch-tuple','',[(B,MATCH,"""    match (db_opts.storage.as_str(), db_opts.indexer.as_str()) {
        (TIKV_BACKEND, TIKV_BACKEND) => {
            let storage_builder = build_storage!(TiKV);
            let indexer_builder = build_indexer!(TiKV);
            start_server!(TiKvStorage, TiKvIndexer, storage_builder, indexer_builder);
        }
        (TIKV_BACKEND, SLED_BACKEND) => {
            let storage_builder = build_storage!(TiKV);
            let indexer_builder = build_indexer!(Sled);
            start_server!(TiKvStorage, SledIndexer, storage_builder, indexer_builder);
        }
        (SLED_BACKEND, TIKV_BACKEND) => {
            let storage_builder = build_storage!(Sled);
            let indexer_builder = build_indexer!(TiKV);
            start_server!(SledStorage, TiKvIndexer, storage_builder, indexer_builder);
        }
        (SLED_BACKEND, SLED_BACKEND) => {
            let storage_builder = build_storage!(Sled);
            let indexer_builder = build_indexer!(Sled);
            start_server!(SledStorage, SledIndexer, storage_builder, indexer_builder);
        }
        _ => exit(1),
    };
}
""")]),
('b-sing-match','',[(B,SING,"""    let uses_tikv = db_opts.indexer == TIKV_BACKEND || db_opts.storage == TIKV_BACKEND;
    let tikv_backend_singleton = match (&db_opts.tikv_config, uses_tikv) {
        (Some(path), true) => Some(TiKvRawBackendSingleton::from_config_file(path.as_path()).unwrap()),
        (None, true) => Some(TiKvRawBackendSingleton::default()),
        (_, false) => None,
    };

""")]),
('b-sing-fn','',[(B,SING,"    let tikv_backend_singleton = tikv_singleton(&db_opts);\n\n"),(B,"fn main() {","fn tikv_singleton(db_opts: &DbOpts) -> Option<TiKvRawBackendSingleton> {\n    if db_opts.indexer != TIKV_BACKEND && db_opts.storage != TIKV_BACKEND {\n        return None;\n    }\n    Some(match db_opts.tikv_config.as_ref() {\n        Some(p) => TiKvRawBackendSingleton::from_config_file(p).unwrap(),\n        None => TiKvRawBackendSingleton::default(),\n    })\n}\n\nfn main() {")]),
('b-early-exit','',[(B,"    info!(\"Server options","    for name in &[&db_opts.storage, &db_opts.indexer] {\n        if name.as_str() != TIKV_BACKEND && name.as_str() != SLED_BACKEND {\n            eprintln!(\"unknown backend {}\", name);\n            exit(2);\n        }\n    }\n    info!(\"Server options")]),
('b-exit2','',[(B,"            _ => exit(1),\n        },\n        _ => exit(1),","            _ => exit(1),\n        },\n        _ => {\n            eprintln!(\"unknown storage {}\", db_opts.storage);\n            exit(2)\n        }")]),
('b-conf-new','',[(T,FC,"        if !config_file.dry_run {\n            return TiKvRawBackendSingleton::new(Config::new(config_file.pd_endpoints));\n        }\n        Ok(TiKvRawBackendSingleton::default())\n")]),
('b-conf-flag','',[(T,FC,"        Ok(TiKvRawBackendSingleton {\n            config: Config::new(config_file.pd_endpoints),\n            dry_run: config_file.dry_run,\n        })\n")]),
('b-inst-early','',[(T,"        Ok(if self.dry_run {\n            Box::new(DummyTiKvBackend::new())\n        } else {\n            Box::new(TiKvRawBackendImpl {\n                client: RawClient::new(self.config.clone())?,\n            })\n        })","        if self.dry_run {\n            return Ok(Box::new(DummyTiKvBackend::new()));\n        }\n        let client = RawClient::new(self.config.clone())?;\n        Ok(Box::new(TiKvRawBackendImpl { client }))")]),
]
