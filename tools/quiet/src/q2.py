# data: keys written in a fixed order, moved instead of cloned when upgraded
F='keychain/src/data.rs'
EDITS=[(F,'''    let map = keys.iter().map(|(k, v)| (k, SeVecWrapper(v)));
    serializer.collect_seq(map)
''','''    let mut list: Vec<(&Network, &Vec<u8>)> = keys.iter().collect();
    list.sort_by_key(|&(net, _)| net.0);
    serializer.collect_seq(list.into_iter().map(|(net, key)| (net, SeVecWrapper(key))))
'''),(F,'''    let mut map: HashMap<Network, Vec<u8>> = HashMap::new();
    for (net, DeVecWrapper(key)) in Vec::<(Network, DeVecWrapper)>::deserialize(deserializer)? {
      map.insert(net, key);
    }
    Ok(map)
''','''    Vec::<(Network, DeVecWrapper)>::deserialize(deserializer)
      .map(|list| list.into_iter().map(|(net, key)| (net, key.0)).collect())
'''),(F,'''  fn from_v1(v1: &WalletDataV1) -> Result<Self, Error> {
    Ok(Self { seed: None, mnemonic: None, dictionary: None, keys: v1.keys.clone() })
  }
''','''  fn from_v1(v1: WalletDataV1) -> Self {
    Self { seed: None, mnemonic: None, dictionary: None, keys: v1.keys }
  }
'''),(F,'''        let v1: WalletDataV1 = serde_json::from_slice(self.data.as_slice())?;
        WalletDataV2::from_v1(&v1)
''','''        serde_json::from_slice::<WalletDataV1>(&self.data).map(WalletDataV2::from_v1)
''')]
