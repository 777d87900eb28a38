# keychain: a list of keys instead of a hash map
F='keychain/src/keychain.rs'
EDITS=[(F,'''  keys: HashMap<Network, Box<dyn Key>>
}
''','''  keys: Vec<(Network, Box<dyn Key>)>
}
'''),(F,'''    let converted: HashMap<Network, Box<dyn Key>> =
      keys.into_iter().map(|key| (key.network(), key)).collect();
    Keychain { keys: converted }
''','''    let mut list: Vec<(Network, Box<dyn Key>)> = Vec::with_capacity(keys.len());
    for key in keys {
      let network = key.network();
      // the last key of a network counts
      list.retain(|(net, _)| net != &network);
      list.push((network, key));
    }
    Keychain { keys: list }
'''),(F,'''    self.keys.get(net).is_some()
''','''    self.keys.iter().any(|(network, _)| network == net)
'''),(F,'''    self.keys.keys().cloned().collect()
''','''    self.keys.iter().map(|(network, _)| *network).collect()
'''),(F,'''    self
      .keys
      .get(network)
      .map(|key| key.as_ref())
      .ok_or_else(|| Error::KeyDoesNotExist(network.clone()))
''','''    for (net, key) in self.keys.iter() {
      if net == network {
        return Ok(key.as_ref());
      }
    }
    Err(Error::KeyDoesNotExist(*network))
'''),(F,'use std::collections::HashMap;\n','')]
