# crypt: one helper for the key, one read for salt and nonce, encryption into the output buffer
F='keychain/src/crypt.rs'
EDITS=[(F,'''  let mut salt: [u8; SALT_SIZE] = [0; SALT_SIZE];
  let mut nonce: [u8; NONCE_SIZE] = [0; NONCE_SIZE];

  entropy.fill_bytes(&mut salt);
  entropy.fill_bytes(&mut nonce);

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password.as_bytes());
    let mut key: Vec<u8> = repeat(0).take(KEY_SIZE).collect();
    pbkdf2(&mut mac, &salt[..], ITER, &mut key);
    key
  };

  let mut tag = [0; TAG_SIZE];
  let mut encrypted: Vec<u8> = repeat(0).take(data.len()).collect();

  ChaCha20Poly1305::new(&key, &nonce, &[]).encrypt(&data, &mut encrypted, &mut tag);

  let mut output = Vec::with_capacity(data.len() + METADATA_SIZE);
  output.extend_from_slice(&salt);
  output.extend_from_slice(&nonce);
  output.extend_from_slice(&tag);
  output.extend_from_slice(&encrypted);
  output
}
''','''  let mut output = vec![0u8; METADATA_SIZE + data.len()];
  {
    let (metadata, encrypted) = output.split_at_mut(METADATA_SIZE);
    let (random, tag) = metadata.split_at_mut(SALT_SIZE + NONCE_SIZE);
    entropy.fill_bytes(random);
    let (salt, nonce) = random.split_at(SALT_SIZE);
    cipher(password, salt, nonce).encrypt(data, encrypted, tag);
  }
  output
}

fn cipher(password: &str, salt: &[u8], nonce: &[u8]) -> ChaCha20Poly1305 {
  use self::password_encryption_parameter::*;
  let mut key = [0u8; KEY_SIZE];
  pbkdf2(&mut Hmac::new(Sha512::new(), password.as_bytes()), salt, ITER, &mut key);
  ChaCha20Poly1305::new(&key, nonce, &[])
}
'''),(F,'''  let salt = &data[SALT_START..SALT_END];
  let nonce = &data[NONCE_START..NONCE_END];
  let tag = &data[TAG_START..TAG_END];
  let encrypted = &data[ENCRYPTED_START..];

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password.as_bytes());
    let mut key: Vec<u8> = repeat(0).take(KEY_SIZE).collect();
    pbkdf2(&mut mac, &salt[..], ITER, &mut key);
    key
  };

  let mut decrypted: Vec<u8> = repeat(0).take(encrypted.len()).collect();
  let decryption_succeed =
    ChaCha20Poly1305::new(&key, &nonce, &[]).decrypt(&encrypted, &mut decrypted, &tag);

  if decryption_succeed {
    Ok(decrypted)
  } else {
    Err(DecryptError::DecryptionFailed)
  }
''','''  let salt = &data[SALT_START..SALT_END];
  let nonce = &data[NONCE_START..NONCE_END];
  let tag = &data[TAG_START..TAG_END];
  let encrypted = &data[ENCRYPTED_START..];

  let mut decrypted = vec![0u8; encrypted.len()];
  match cipher(password, salt, nonce).decrypt(encrypted, &mut decrypted, tag) {
    true => Ok(decrypted),
    false => Err(DecryptError::DecryptionFailed)
  }
'''),(F,'use std::iter::repeat;\n','')]
