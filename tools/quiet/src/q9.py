# networks: one path check for both BIP-44 networks, tail first; verification checks the path before the size
E_='keychain/src/networks/ethereum/key.rs'; C='keychain/src/networks/cardano/key.rs'; KP='keychain/src/key_path.rs'
CHK='''    if path.purpose() != BIP44_PURPOSE {
      return Err(KPError::InvalidPurpose(path.purpose(), BIP44_PURPOSE).into());
    }
    if path.coin() != BIP44_COIN_TYPE {
      return Err(KPError::InvalidCoin(path.coin(), BIP44_COIN_TYPE).into());
    }
    if path.account() < BIP44_SOFT_UPPER_BOUND {
      return Err(KPError::InvalidAccount(path.account()).into());
    }
    if path.change() != 0 && path.change() != 1 {
      return Err(KPError::InvalidChange(path.change()).into());
    }
    if path.address() >= BIP44_SOFT_UPPER_BOUND {
      return Err(KPError::InvalidAddress(path.address()).into());
    }
'''
EDITS=[(E_,CHK,'''    check_bip44(path, BIP44_COIN_TYPE)?;
'''),(C,CHK,'''    check_bip44(path, BIP44_COIN_TYPE)?;
'''),(E_,'use key_path::{Error as KPError, KeyPath, BIP44_PURPOSE, BIP44_SOFT_UPPER_BOUND};','use key_path::{check_bip44, KeyPath, BIP44_PURPOSE};'),(C,'use key_path::{Error as KPError, KeyPath, BIP44_PURPOSE, BIP44_SOFT_UPPER_BOUND};','use key_path::{check_bip44, KeyPath, BIP44_PURPOSE};'),
(KP,'''pub struct GenericKeyPath {
''','''pub(crate) fn check_bip44(path: &dyn KeyPath, coin: u32) -> Result<(), Error> {
  if path.address() >= BIP44_SOFT_UPPER_BOUND {
    return Err(Error::InvalidAddress(path.address()));
  }
  if path.change() > 1 {
    return Err(Error::InvalidChange(path.change()));
  }
  if path.account() < BIP44_SOFT_UPPER_BOUND {
    return Err(Error::InvalidAccount(path.account()));
  }
  if path.coin() != coin {
    return Err(Error::InvalidCoin(path.coin(), coin));
  }
  if path.purpose() != BIP44_PURPOSE {
    return Err(Error::InvalidPurpose(path.purpose(), BIP44_PURPOSE));
  }
  Ok(())
}

pub struct GenericKeyPath {
'''),(C,'''    let mut sign: [u8; SIGNATURE_SIZE] = [0; SIGNATURE_SIZE];
    if signature.len() != SIGNATURE_SIZE {
      return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
    }
    sign.copy_from_slice(signature);

    self.derive_private(path).map(|pk| {
      let native_signature: Signature<Vec<u8>> = Signature::from_bytes(sign);
      pk.verify(data, &native_signature)
    })
''','''    let key = self.derive_private(path)?.public();
    if signature.len() != SIGNATURE_SIZE {
      return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
    }
    let mut bytes = [0u8; SIGNATURE_SIZE];
    bytes.copy_from_slice(signature);
    Ok(key.verify(data, &Signature::<Vec<u8>>::from_bytes(bytes)))
''')]
