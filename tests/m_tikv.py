B='src/backend/tikv.rs'; S='src/storage/tikv_storage.rs'; I='src/indexer/tikv_indexer.rs'; C='src/chunk/chunk.rs'; D='src/db.rs'
IDX="""            let indexer_id = Uuid::new_v4().as_bytes().to_vec();
            let mut res = indexer_id.clone();
            res.append(value[16..].to_vec().as_mut());
            self.set(chunk_identifier.clone(), res)?;
            Ok(indexer_id)
"""
STO="""            let storage_id = Uuid::new_v4().as_bytes().to_vec();
            let mut res = vec![];
            res.append(value[..16].to_vec().as_mut());
            res.append(storage_id.clone().as_mut());
            self.set(chunk_identifier.clone(), res)?;
            Ok(storage_id)
"""
GET="""        let value = self.get(chunk_identifier.clone())?.unwrap_or({
            let mut id = Uuid::nil().as_bytes().to_vec();
            let mut nil = Uuid::nil().as_bytes().to_vec();
            id.append(&mut nil);
            id
        });
"""
KEYS="""        let mut key = self.storage_identifier.clone();
"""
M=[
('tk-same-half','D05',[(B,STO,STO.replace("value[..16]","value[16..]").replace("            res.append(value[16..].to_vec().as_mut());\n            res.append(storage_id.clone().as_mut());","            res.append(storage_id.clone().as_mut());\n            res.append(value[16..].to_vec().as_mut());"))]),
('tk-lose-storage','D05',[(B,"res.append(value[16..].to_vec().as_mut());","res.append(Uuid::nil().as_bytes().to_vec().as_mut());")]),
('tk-lose-index','D05',[(B,"res.append(value[..16].to_vec().as_mut());","res.append(value[16..].to_vec().as_mut());")]),
('tk-shared-id','D05',[(B,"let storage_id = Uuid::new_v4().as_bytes().to_vec();","let storage_id = chunk_identifier.clone();")]),
('tk-nil-id','D05',[(B,"let indexer_id = Uuid::new_v4().as_bytes().to_vec();","let indexer_id = Uuid::nil().as_bytes().to_vec();")]),
('tk-reuse','D05',[(B,"let storage_id = Uuid::new_v4().as_bytes().to_vec();","let storage_id = value[..16].to_vec();")]),
('tk-get-swallow','D05',[(B,"self.get(chunk_identifier.clone())?.unwrap_or({","self.get(chunk_identifier.clone()).unwrap_or(None).unwrap_or({")]),
('tk-set-ignored','D05',[(B,"            self.set(chunk_identifier.clone(), res)?;\n            Ok(storage_id)","            let _ = self.set(chunk_identifier.clone(), res);\n            Ok(storage_id)")]),
('tk-unrecorded','D05',[(B,"            self.set(chunk_identifier.clone(), res)?;\n            Ok(indexer_id)","            Ok(indexer_id)")]),
('tk-other-recorded','D05',[(B,IDX,IDX.replace("let mut res = indexer_id.clone();","let mut res = Uuid::new_v4().as_bytes().to_vec();"))]),
('tk-key-id','D05',[(B,IDX,IDX.replace("self.set(chunk_identifier.clone(), res)?;","self.set(indexer_id.clone(), res)?;"))]),
('tk-flags','D05',[(S,"init_component(chunk_identifier.clone(), false)","init_component(chunk_identifier.clone(), true)")]),
('tk-flag-swap','D05',[(S,"init_component(chunk_identifier.clone(), false)","init_component(chunk_identifier.clone(), true)"),(I,"init_component(chunk_identifier.clone(), true)","init_component(chunk_identifier.clone(), false)")]),
('tk-default-id','D05',[(S,"client.init_component(chunk_identifier.clone(), false)?","client.init_component(chunk_identifier.clone(), false).unwrap_or_default()")]),
('tk-chunk-id','D05',[(I,"indexer_identifier: client.init_component(chunk_identifier.clone(), true)?,","indexer_identifier: { client.init_component(chunk_identifier.clone(), true)?; chunk_identifier.clone() },")]),
('tk-reopen-half','D05',[(S,"Vec::from(&val[16..])","Vec::from(&val[..16])")]),
('tk-reopen-short','D05',[(I,"Vec::from(&val[..16])","Vec::from(&val[..15])")]),
('tk-reopen-new','D05',[(I,"let indexer_identifier = Vec::from(&val[..16]);","let indexer_identifier = client.init_component(chunk_opts.unwrap().identifier.clone(), true)?;\n            let _ = val;")]),
('tk-reopen-all','D05',[(S,"Vec::from(&val[16..])","val")]),
('tk-reopen-swallow','D05 D03',[(S,"if let Some(val) = client.get(chunk_opts.unwrap().identifier.clone())? {","if let Ok(Some(val)) = client.get(chunk_opts.unwrap().identifier.clone()) {")]),
('tk-key-chunk','D05',[(S,"        let mut key = self.storage_identifier.clone();\n        let mut time_series_id_bytes: Vec<u8> = Vec::from(&time_series_id.to_be_bytes()[..]);\n        key.append(&mut time_series_id_bytes);\n        if","        let mut key = self.chunk_identifier.clone();\n        let mut time_series_id_bytes: Vec<u8> = Vec::from(&time_series_id.to_be_bytes()[..]);\n        key.append(&mut time_series_id_bytes);\n        if")]),
('tk-chunk-nil','D05',[(C,"identifier: uuid::Uuid::new_v4().as_bytes().to_vec()","identifier: uuid::Uuid::nil().as_bytes().to_vec()")]),
('tk-client-key','D05 W02',[(B,"self.client.get(key)","self.client.get(key[..key.len() - 1].to_vec())")]),
('tk-client-ignored','D05 W02',[(B,"        Ok(res?)\n","        let _ = res;\n        Ok(())\n")]),
('tk-client-none','D05 W02',[(B,"Ok(res?.map(|v| v.into()))","Ok(res.unwrap_or(None).map(|v| v.into()))")]),
# benign
('tb-match','',[(B,GET,"""        let value = match self.get(chunk_identifier.clone())? {
            Some(value) => value,
            None => vec![0u8; 32],
        };
""")]),
('tb-lazy','',[(B,GET,"        let value = self.get(chunk_identifier.clone())?.unwrap_or_else(|| vec![0; 32]);\n")]),
('tb-concat','',[(B,IDX,"""            let id = Uuid::new_v4().as_bytes().to_vec();
            let record = [&id[..], &value[16..]].concat();
            self.set(chunk_identifier, record)?;
            Ok(id)
""")]),
('tb-extend','',[(B,STO,"""            let id = Uuid::new_v4().as_bytes().to_vec();
            let mut record = value[0..16].to_vec();
            record.extend_from_slice(&id);
            self.set(chunk_identifier, record).map(|_| id)
""")]),
('tb-one-id','',[(B,"        if is_indexer {\n"+IDX+"        } else {\n"+STO+"        }\n","""        let id = Uuid::new_v4().as_bytes().to_vec();
        let mut record = value;
        if is_indexer {
            record[..16].copy_from_slice(&id);
        } else {
            record[16..].copy_from_slice(&id);
        }
        self.set(chunk_identifier, record)?;
        Ok(id)
"""),(B,"        let value = self.get(","        let mut value = self.get(")]),
('tb-one-id2','',[(B,"        if is_indexer {\n"+IDX+"        } else {\n"+STO+"        }\n","""        let id = Uuid::new_v4().as_bytes().to_vec();
        let mut record = Vec::with_capacity(32);
        if is_indexer {
            record.extend_from_slice(&id);
            record.extend_from_slice(&value[16..]);
        } else {
            record.extend_from_slice(&value[..16]);
            record.extend_from_slice(&id);
        }
        self.set(chunk_identifier, record)?;
        Ok(id)
""")]),
('tb-build','',[(S,"""        let instance = TiKvStorage {
            storage_identifier: client.init_component(chunk_identifier.clone(), false)?,
            client,
            chunk_identifier,
        };
        Ok(instance)""","""        let storage_identifier = client.init_component(chunk_identifier.clone(), false)?;
        Ok(TiKvStorage {
            client,
            chunk_identifier,
            storage_identifier,
        })""")]),
('tb-reopen','',[(I,"""        if chunk_opts.is_none() {
            return Ok(None);
        }
        let client = self.backend_builder.get_instance()?;
        if let Some(val) = client.get(chunk_opts.unwrap().identifier.clone())? {
            let indexer_identifier = Vec::from(&val[..16]);
            return Ok(Some(TiKvIndexer {
                client,
                chunk_identifier: chunk_opts.unwrap().identifier.clone(),
                indexer_identifier,
            }));
        }

        Ok(None)
""","""        let chunk_identifier = match chunk_opts {
            Some(opts) => opts.identifier.clone(),
            None => return Ok(None),
        };
        let client = self.backend_builder.get_instance()?;
        let record = client.get(chunk_identifier.clone())?;
        Ok(record.map(|record| TiKvIndexer {
            indexer_identifier: record[0..16].to_vec(),
            client,
            chunk_identifier,
        }))
""")]),
('tb-client','',[(B,"""        let res: tikv_client::Result<()> = futures::executor::block_on(self.client.put(key, value));
        Ok(res?)
""","""        futures::executor::block_on(self.client.put(key, value))?;
        Ok(())
""")]),
]
