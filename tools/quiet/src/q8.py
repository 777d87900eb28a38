# bip32: helpers, fixed buffers, a loop instead of the recursion
F='secp256k1_bip32/src/private.rs'
EDITS=[(F,'''    let mut sha256 = Sha256::new();
    sha256.input(&data[DEPTH_START..KEY_END]);
    let mut hash = [0u8; 32];
    sha256.result(&mut hash);
    sha256.reset();
    sha256.input(&hash);
    sha256.result(&mut hash);

    if data[CHECKSUM_START..CHECKSUM_END] != hash[0..CHECKSUM_SIZE] {
''','''    if data[CHECKSUM_START..CHECKSUM_END] != checksum(&data[DEPTH_START..KEY_END]) {
'''),(F,'''    let mut sha256 = Sha256::new();
    sha256.input(data.as_slice());
    let mut hash = [0u8; 32];
    sha256.result(&mut hash);
    sha256.reset();
    sha256.input(&hash);
    sha256.result(&mut hash);

    data.extend_from_slice(&hash[0..CHECKSUM_SIZE]);

    data
  }
''','''    let sum = checksum(&data);
    data.extend_from_slice(&sum);
    data
  }

  fn fingerprint(&self) -> [u8; data_layout::FINGERPRINT_SIZE] {
    let digest = Ripemd160::digest(&self.public().compressed_sha256());
    [digest[0], digest[1], digest[2], digest[3]]
  }
'''),(F,'''    let mut hmac = Hmac::new(Sha512::new(), &self.chaincode);

    let hardened = index >= BIP44_SOFT_UPPER_BOUND;

    if hardened {
      let mut input = Vec::with_capacity(util::SECRET_KEY_SIZE + INDEX_SIZE + 1);
      input.push(0x00);
      input.extend_from_slice(&self.key.serialize());
      if input.write_u32::<BigEndian>(index).is_err() {
        return Err(KeyError::InternalError);
      }
      hmac.input(&input);
    } else {
      let mut input = Vec::with_capacity(util::COMPRESSED_PUBLIC_KEY_SIZE + INDEX_SIZE);
      input.extend_from_slice(&self.public().serialize_compressed());
      if input.write_u32::<BigEndian>(index).is_err() {
        return Err(KeyError::InternalError);
      }
      hmac.input(&input);
    }

    let result = hmac.result();
    let entropy = result.code();

    if entropy.len() < ENTROPY_SIZE {
      return Err(KeyError::InvalidEntropySize(entropy.len()));
    }

    let mut chaincode = [0u8; CHAIN_CODE_SIZE];
    chaincode.copy_from_slice(&entropy[KEY_SIZE..(KEY_SIZE + CHAIN_CODE_SIZE)]);

    let tweak_pk =
      SecretKey::parse_slice(&entropy[0..KEY_SIZE]).map_err(|err| KeyError::from(err))?;

    let mut newpk = self.key.clone();

    if newpk.tweak_add_assign(&tweak_pk).is_err() {
      if (hardened && index < std::u32::MAX) || (!hardened && index < BIP44_SOFT_UPPER_BOUND) {
        return self.derive(index + 1);
      } else {
        return Err(KeyError::TweakOutOfRange);
      }
    }

    let mut hasher = Ripemd160::new();
    hasher.input(&self.public().compressed_sha256());
    let mut fingerprint = [0u8; FINGERPRINT_SIZE];
    fingerprint.copy_from_slice(&hasher.result()[0..FINGERPRINT_SIZE]);

    Ok(Self {
      key: newpk,
      depth: self.depth + 1,
      chaincode,
      index,
      parent_fingerprint: fingerprint
    })
  }
}
''','''    let mut index = index;
    loop {
      let mut input = [0u8; 1 + KEY_SIZE + INDEX_SIZE];
      {
        let (key, number) = input.split_at_mut(1 + KEY_SIZE);
        if index >= BIP44_SOFT_UPPER_BOUND {
          key[1..].copy_from_slice(&self.key.serialize());
        } else {
          key.copy_from_slice(&self.public().serialize_compressed());
        }
        BigEndian::write_u32(number, index);
      }
      let mut hmac = Hmac::new(Sha512::new(), &self.chaincode);
      hmac.input(&input);
      let mut entropy = [0u8; ENTROPY_SIZE];
      hmac.raw_result(&mut entropy);

      let mut key = SecretKey::parse_slice(&entropy[..KEY_SIZE])?;
      if key.tweak_add_assign(&self.key).is_ok() {
        let mut chaincode = [0u8; CHAIN_CODE_SIZE];
        chaincode.copy_from_slice(&entropy[KEY_SIZE..]);
        let depth = self.depth + 1;
        return Ok(Self { key, depth, chaincode, index, parent_fingerprint: self.fingerprint() });
      }
      if index == std::u32::MAX {
        return Err(KeyError::TweakOutOfRange);
      }
      index += 1;
    }
  }
}

fn checksum(data: &[u8]) -> [u8; data_layout::CHECKSUM_SIZE] {
  let mut hash = [0u8; 32];
  let mut hasher = Sha256::new();
  hasher.input(data);
  hasher.result(&mut hash);
  let mut hasher = Sha256::new();
  hasher.input(&hash);
  hasher.result(&mut hash);
  [hash[0], hash[1], hash[2], hash[3]]
}
'''),(F,'use ripemd160::{Digest as RipeDigest, Ripemd160};','use ripemd160::Ripemd160;\nuse ripemd160::Digest as RipeDigest;')]
