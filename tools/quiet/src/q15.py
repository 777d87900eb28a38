# keychain-c: arguments read before the call, explicit matches
F='keychain-c/src/manager.rs'; E_='keychain-c/src/error.rs'
EDITS=[(F,'''    let data_slice = slice(data, data_len);
    manager
      .rust_ref()
      .change_password(data_slice, old_password.rust_ref(), new_password.rust_ref())
      .map(|data| DataPtr::from(data))
''','''    let new = new_password.rust_ref();
    let old = old_password.rust_ref();
    let bytes = slice(data, data_len);
    let changed = manager.rust_ref().change_password(bytes, old, new)?;
    Ok(DataPtr::from(changed.as_slice()))
'''),(F,'''    let data_slice = slice(data, data_len);
    manager
      .rust_ref()
      .keychain_from_data(data_slice, password.rust_ref())
      .map(|keychain| KeychainPtr::new(keychain))
''','''    let manager = manager.rust_ref();
    let keychain = manager.keychain_from_data(slice(data, data_len), password.rust_ref())?;
    Ok(KeychainPtr::new(keychain))
'''),(F,'''  handle_exception_result(|| {
    manager.rust_ref().generate_mnemonic(lang.rust()).map(|mnemonic| mnemonic.to_cstr())
  })
  .response(mnemonic, error)
''','''  let generated = handle_exception_result(|| manager.rust_ref().generate_mnemonic(lang.rust()));
  let text = generated.and_then(|text| handle_exception(|| text.to_cstr()));
  text.response(mnemonic, error)
'''),(E_,'''    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
''','''    let text = err.to_string();
    let error_type = Self::error_type(err);
    Self { error_type, message: Self::message(&text) }
'''),(E_,'''    msg.replace('\\0', "\\\\0").to_cstr()
''','''    let mut text = String::with_capacity(msg.len());
    for ch in msg.chars() {
      match ch {
        '\\0' => text.push_str("\\\\0"),
        ch => text.push(ch)
      }
    }
    text.to_cstr()
'''),(F,'''    let _: Box<RKeychainManager> = Box::from_raw(self.0 as *mut RKeychainManager);
    self.0 = std::ptr::null_mut();
''','''    let manager = std::mem::replace(&mut self.0, std::ptr::null_mut());
    drop(Box::from_raw(manager as *mut RKeychainManager));
''')]
