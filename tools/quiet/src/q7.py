# keychain-c: boxed slices, another shape of the exception handling
D='keychain-c/src/utils/data.rs'; P='keychain-c/src/utils/panic.rs'; N='keychain-c/src/network.rs'; B='keychain-c/src/backup.rs'; R='keychain-c/src/utils/result.rs'; K='keychain-c/src/keychain_c.rs'; S='keychain-c/src/utils/string.rs'
EDITS=[(D,'''    let _ = Vec::from_raw_parts(self.ptr as *mut u8, self.len, self.len);
    self.ptr = std::ptr::null();
''','''    let slice = std::slice::from_raw_parts_mut(self.ptr as *mut u8, self.len);
    drop(Box::from_raw(slice as *mut [u8]));
    self.ptr = std::ptr::null();
    self.len = 0;
'''),(D,'''    let len = data.len();
    let mut slice = data.into_boxed_slice();
    let out = slice.as_mut_ptr();
    std::mem::forget(slice);
    Self { ptr: out, len: len }
''','''    let len = data.len();
    let ptr = Box::into_raw(data.into_boxed_slice()) as *const u8;
    Self { ptr, len }
'''),(P,'''  match panic::catch_unwind(func) {
    Ok(res) => res.map_err(|err| ErrorPtr::new(&err)),
    Err(err) => {
      if let Some(string) = err.downcast_ref::<String>() {
        return Err(ErrorPtr::panic(&string));
      } else if let Some(string) = err.downcast_ref::<&'static str>() {
        return Err(ErrorPtr::panic(string));
      }
      return Err(ErrorPtr::panic(&format!("Reason: {:?}", err)));
    }
  }
''','''  let result = panic::catch_unwind(func).map_err(|err| ErrorPtr::panic(&reason(&*err)))?;
  match result {
    Ok(value) => Ok(value),
    Err(err) => Err(ErrorPtr::new(&err))
  }
}

fn reason(err: &(dyn std::any::Any + Send)) -> String {
  if let Some(text) = err.downcast_ref::<&'static str>() {
    return text.to_string();
  }
  match err.downcast_ref::<String>() {
    Some(text) => text.clone(),
    None => "Unknown reason".to_owned()
  }
'''),(N,'''    let _ = Vec::from_raw_parts(self.ptr as *mut Network, self.count, self.count);
''','''    let list = std::slice::from_raw_parts_mut(self.ptr as *mut Network, self.count);
    drop(Box::from_raw(list as *mut [Network]));
'''),(N,'''    let len = data.len();
    let mut slice = data.into_boxed_slice();
    let out = slice.as_mut_ptr();
    std::mem::forget(slice);
    Self { ptr: out, count: len }
''','''    let list: &'static mut [Network] = Box::leak(data.into_boxed_slice());
    Self { ptr: list.as_ptr(), count: list.len() }
'''),(B,'''    let vec = Vec::from_raw_parts(self.ptr as *mut KeyBackupElem, self.count, self.count);
    for mut elem in vec.into_iter() {
      elem.data.free();
    }
    self.ptr = std::ptr::null();
''','''    let mut list =
      Box::from_raw(std::slice::from_raw_parts_mut(self.ptr as *mut KeyBackupElem, self.count));
    self.ptr = std::ptr::null();
    self.count = 0;
    list.iter_mut().for_each(|elem| elem.data.free());
'''),(R,'''    match self {
      Err(err) => {
        *error = *err;
        false
      }
      Ok(value) => {
        *val = *value;
        true
      }
    }
''','''    if let Ok(value) = self {
      *val = *value;
    }
    if let Err(err) = self {
      *error = *err;
    }
    self.is_ok()
'''),(K,'''    keychain.rust_ref().sign(&network.into(), data_slice, &path).map(|data| DataPtr::from(data))
''','''    let signature = keychain.rust_ref().sign(&network.into(), data_slice, &path)?;
    Ok(signature.as_slice().into())
'''),(S,'''    CString::new(self.as_bytes()).unwrap().into_raw()
  }
}

impl ToCString for String {
  fn to_cstr(&self) -> CharPtr {
    CString::new(self.as_bytes()).unwrap().into_raw()
''','''    CString::new(*self).expect("text has no NUL").into_raw()
  }
}

impl ToCString for String {
  fn to_cstr(&self) -> CharPtr {
    self.as_str().to_cstr()
''')]
