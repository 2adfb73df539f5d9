fn m_bus_core::Function::TryFrom<u8>::try_from
  spec@P05,P18:
    ensures true,
  spec@P01:
    ensures
        r is Ok <==> sp_function(byte) is Some,
  spec@P02,P03,P23,P24,P27:
    ensures
        (match sp_function(byte) { Some(f) => r == Ok::<Function, FrameError>(f), None => r is Err }),

fn wired_mbus_link_layer::Address::from
  spec@P01,P05,P18:
    ensures true,
  spec@P02,P23,P24,P27:
    ensures r == sp_address(byte),

fn wired_mbus_link_layer::validate_checksum
  spec@P02,P05,P18:
    ensures true,
  loops: 1
  spec@P01,P23,P24,P27:
    ensures
        r is Ok <==> (data@.len() >= 2 && sp_sum(data@.subrange(0, data@.len() - 2)) % 256 == data@[data@.len() - 2] as int),
  loop 0@P02,P05,P18:
    invariant $i <= $e, $e == $s@.len(),
    decreases $e - $i,
  loop 0@P01,P23,P24,P27:
    invariant
        $i <= $e, $e == $s@.len(),
        $m0 as int == sp_sum($s@.subrange(0, $i as int)) % 256,
    decreases $e - $i,
  loop 0 before@P01,P23,P24,P27:
        proof { assert($s@.subrange(0, 0) =~= Seq::<u8>::empty()); }
  loop 0 start@P01,P23,P24,P27:
        proof {
            assert($s@.subrange(0, $i as int).drop_last() =~= $s@.subrange(0, $i - 1));
        }
  loop 0 after@P01,P23,P24,P27:
        proof { assert($s@.subrange(0, $e as int) =~= $s@); }

fn wired_mbus_link_layer::WiredFrame::TryFrom<&[u8]>::try_from
  spec@P05:
    ensures true,
  spec@P18:
    ensures match r { Ok(f) => sp_wired_len(f, data@.len() as int), Err(_) => true },
  spec@P23,P24,P27,P25:
    ensures r is Ok <==> sp_wired_ok(data@), match r { Ok(f) => sp_wired_matches(data@, f), Err(_) => true },
  spec@P01:
    ensures r is Ok <==> sp_wired_ok(data@),
  spec@P02:
    ensures
        sp_wired_ok(data@) ==> match r { Ok(f) => sp_wired_matches(data@, f), Err(_) => true },
  start:
        proof {
            if data@.len() >= 6 { assert(data@.subrange(4, data@.len() as int).subrange(0, data@.len() - 6) =~= data@.subrange(4, data@.len() - 2)); }
            if data@.len() >= 3 { assert(data@.subrange(1, data@.len() as int).subrange(0, data@.len() - 3) =~= data@.subrange(1, data@.len() - 2)); }
        }
