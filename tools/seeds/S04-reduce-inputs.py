prop="S01"; kit="spartan"; also=["D04"]
needs="an assignment value of at least the field's modulus"
breaks="a value and the same value plus the modulus are taken for one another instead of being refused"
edits=[("packages/Spartan-secq/src/lib.rs","        let val = Scalar::from_bytes(v);\n        if val.is_some().unwrap_u8() == 1 {\n          vec_scalar.push(val.unwrap());\n        } else {\n          return Err(R1CSError::InvalidScalar);\n        }\n","        let mut wide = [0u8; 64];\n        wide[..32].copy_from_slice(v);\n        vec_scalar.push(Scalar::from_bytes_wide(&wide));\n")]
