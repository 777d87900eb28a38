# mnemonic: sizes compared with a match; seed and entropy without intermediate copies; entropy drawn word by word
F='keychain/src/mnemonic.rs'; M='keychain/src/manager.rs'
EDITS=[(F,'''  if size_words > words_count {
    return Err(Error::MnemonicToShort(words_count, size_words));
  }
  if size_words < words_count {
    return Err(Error::MnemonicToLong(words_count, size_words));
  }
  let mnemonic_string = mnemonics.to_string(language.to_dict());
  Ok(Vec::from(bip39::Seed::from_mnemonic_string(&mnemonic_string, unique.as_bytes()).as_ref()))
''','''  match size_words.cmp(&words_count) {
    std::cmp::Ordering::Greater => Err(Error::MnemonicToShort(words_count, size_words)),
    std::cmp::Ordering::Less => Err(Error::MnemonicToLong(words_count, size_words)),
    std::cmp::Ordering::Equal => {
      let text = mnemonics.to_string(language.to_dict());
      Ok(bip39::Seed::from_mnemonic_string(&text, unique.as_bytes()).to_vec())
    }
  }
'''),(F,'''  let generated = bip39::Entropy::generate(bip_type, |bytes| entropy.fill_bytes(bytes));
  Ok(Vec::from(generated.as_ref()))
''','''  let mut bytes = vec![0u8; bip_type.to_key_size() / 8];
  for word in bytes.chunks_mut(4) {
    entropy.fill_bytes(word);
  }
  Ok(bytes)
'''),(M,'''    generate_entropy(self.seed_size, self.random.as_ref())
      .and_then(|ent| mnemonic_from_entropy(&ent, language.unwrap_or_default()))
      .map_err(|err| err.into())
''','''    let language = language.unwrap_or_default();
    let entropy = generate_entropy(self.seed_size, self.random.as_ref())?;
    Ok(mnemonic_from_entropy(&entropy, language)?)
'''),]
