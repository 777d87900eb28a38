# manager: loops and matches instead of combinators
F='keychain/src/manager.rs'
EDITS=[(F,'''    let filtered: Vec<Box<dyn KeyFactory>> = all_networks()
      .into_iter()
      .filter(|network| {
        let ntype = network.network();
        networks.iter().position(|nt| nt == &ntype).is_some()
      })
      .collect();
    Self::with_factory_objs(filtered)
''','''    let mut factories = all_networks();
    factories.retain(|factory| networks.contains(&factory.network()));
    Self::with_factory_objs(factories)
'''),(F,'''    let keys_result: Result<Vec<Box<dyn Key>>, Error> = v2
      .keys
      .into_iter()
      .filter_map(|(network, key)| {
        self.factories.get(&network).map(|factory| {
          factory.key_from_data(&key).map_err(|err| Error::from_key_error(&network, err))
        })
      })
      .collect();
    keys_result.map(|keys| Keychain::new(keys))
''','''    let mut stored: Vec<(Network, Vec<u8>)> = v2.keys.into_iter().collect();
    stored.sort_by_key(|(network, _)| network.0);
    let mut keys: Vec<Box<dyn Key>> = Vec::with_capacity(stored.len());
    for (network, data) in stored {
      if let Some(factory) = self.factories.get(&network) {
        match factory.key_from_data(&data) {
          Ok(key) => keys.push(key),
          Err(err) => return Err(Error::from_key_error(&network, err))
        }
      }
    }
    Ok(Keychain::new(keys))
'''),(F,'''    crypt::decrypt(encrypted, old_password)
      .map_err(|err| Error::from(err))
      .map(|decrypted| crypt::encrypt(&decrypted, new_password, self.random.as_ref()))
''','''    let decrypted = crypt::decrypt(encrypted, old_password)?;
    Ok(crypt::encrypt(&decrypted, new_password, self.random.as_ref()))
'''),(F,'''    let mut data = Self::keychain_data_from_bytes(encrypted, password)?;
    if data.keys.get(&network).is_some() {
      return Err(Error::KeyAlreadyExist(network));
    }

    let seed = self.seed_from_data(
      data.seed.as_ref().map(|s| s.as_ref()),
      data.mnemonic.as_ref().map(|m| m.as_ref()),
      data.dictionary
    )?;

    let key_data =
      factory.key_data_from_seed(&seed).map_err(|err| Error::from_key_error(&network, err))?;

    data.keys.insert(network, key_data);

    VersionedData::new(&data)
      .and_then(|data| data.to_bytes())
      .map_err(|err| Error::from(err))
      .map(|bytes| crypt::encrypt(&bytes, password, self.random.as_ref()))
''','''    let mut data = Self::keychain_data_from_bytes(encrypted, password)?;
    let key_data = match data.keys.contains_key(&network) {
      true => return Err(Error::KeyAlreadyExist(network)),
      false => {
        let seed = self.seed_from_data(data.seed.as_deref(), data.mnemonic.as_deref(), data.dictionary)?;
        Self::key_data(factory.as_ref(), &seed)?
      }
    };
    let previous = data.keys.insert(network, key_data);
    debug_assert!(previous.is_none());
    self.sealed(&data, password)
'''),(F,'''    let pkeys: Result<HashMap<Network, Vec<u8>>, Error> = self
      .factories
      .values()
      .into_iter()
      .map(|fact| {
        fact
          .key_data_from_seed(&calculated_seed)
          .map(|data| (fact.network(), data))
          .map_err(|err| Error::from_key_error(&fact.network(), err))
      })
      .collect();

    let data = WalletDataV2 {
      seed: seed.map(|s| Vec::from(s)),
      mnemonic: mnemonic.map(|m| m.to_owned()),
      dictionary: lang,
      keys: pkeys?
    };

    VersionedData::new(&data)
      .and_then(|data| data.to_bytes())
      .map(|bytes| crypt::encrypt(&bytes, password, self.random.as_ref()))
      .map_err(|err| Error::from(err))
  }
''','''    let mut keys = HashMap::with_capacity(self.factories.len());
    for (network, factory) in &self.factories {
      keys.insert(*network, Self::key_data(factory.as_ref(), &calculated_seed)?);
    }

    let data = WalletDataV2 {
      seed: seed.map(Vec::from),
      mnemonic: mnemonic.map(String::from),
      dictionary: lang,
      keys
    };
    self.sealed(&data, password)
  }

  fn key_data(factory: &dyn KeyFactory, seed: &[u8]) -> Result<Vec<u8>, Error> {
    factory.key_data_from_seed(seed).map_err(|err| Error::from_key_error(&factory.network(), err))
  }

  fn sealed(&self, data: &WalletDataV2, password: &str) -> Result<Vec<u8>, Error> {
    let bytes = VersionedData::new(data)?.to_bytes()?;
    Ok(crypt::encrypt(&bytes, password, self.random.as_ref()))
  }
'''),(F,'''    let (min, max) = factories.into_iter().fold((0, std::usize::MAX), |(min, max), factory| {
      let ssize = factory.seed_size();
      (min.max(ssize.min), max.min(ssize.max))
    });

    match min {
      0 => Err(Error::CantCalculateSeedSize(min, max)),
      m if m >= max => Err(Error::CantCalculateSeedSize(min, max)),
      _ => Ok(min)
    }
''','''    let mut min = 0;
    let mut max = std::usize::MAX;
    for factory in factories {
      let size = factory.seed_size();
      if size.min > min { min = size.min; }
      if size.max < max { max = size.max; }
    }
    if min > 0 && min < max { Ok(min) } else { Err(Error::CantCalculateSeedSize(min, max)) }
'''),(F,'''    seed.map_or_else(
      || {
        let mnem = mnemonic.ok_or(Error::SeedIsNotSaved)?;
        let lang = lang.ok_or(Error::SeedIsNotSaved)?;
        seed_from_mnemonic(mnem, "", self.seed_size, lang).map_err(|err| Error::from(err))
      },
      |seed| {
        if seed.len() == SEED_SIZE {
          Ok(Vec::from(seed))
        } else {
          Err(Error::InvalidSeedSize(seed.len()))
        }
      }
    )
''','''    match (seed, mnemonic, lang) {
      (Some(seed), _, _) if seed.len() == SEED_SIZE => Ok(seed.to_vec()),
      (Some(seed), _, _) => Err(Error::InvalidSeedSize(seed.len())),
      (None, Some(mnemonic), Some(lang)) => Ok(seed_from_mnemonic(mnemonic, "", self.seed_size, lang)?),
      _ => Err(Error::SeedIsNotSaved)
    }
''')]
