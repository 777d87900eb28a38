# bitcoin: derived accounts are kept, so that only the last steps are derived again
F='keychain/src/networks/bitcoin/key.rs'
EDITS=[(F,'''pub struct Key {
  xprv: XPrv
}
''','''pub struct Key {
  xprv: XPrv,
  accounts: Mutex<HashMap<(u32, u32, u32), XPrv>>
}
'''),(F,'Ok(Self { xprv })','Ok(Self { xprv, accounts: Mutex::new(HashMap::new()) })'),(F,'''    self
      .xprv
      .derive(path.purpose())
      .and_then(|pk| pk.derive(path.coin()))
      .and_then(|pk| pk.derive(path.account()))
      .and_then(|pk| pk.derive(path.change()))
      .and_then(|pk| pk.derive(path.address()))
      .map_err(|err| err.into())
''','''    let id = (path.purpose(), path.coin(), path.account());
    let mut accounts = self.accounts.lock().unwrap_or_else(|err| err.into_inner());
    if !accounts.contains_key(&id) {
      if accounts.len() >= 16 {
        accounts.clear();
      }
      let account = self.xprv.derive(id.0)?.derive(id.1)?.derive(id.2)?;
      accounts.insert(id, account);
    }
    Ok(accounts[&id].derive(path.change())?.derive(path.address())?)
'''),(F,'use secp256k1_bip32::XPrv;','use secp256k1_bip32::XPrv;\nuse std::collections::HashMap;\nuse std::sync::Mutex;')]
