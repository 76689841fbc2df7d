// Generated by tools/mksafecast.py.
package safecast
props C01

func safecast.Int8ToUint(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.Int8ToUint8(v) (r)
  panics_iff v < 0 || v > 255
  ensures [same-value] r == v

func safecast.Int8ToUint16(v) (r)
  panics_iff v < 0 || v > 65535
  ensures [same-value] r == v

func safecast.Int8ToUint32(v) (r)
  panics_iff v < 0 || v > 4294967295
  ensures [same-value] r == v

func safecast.Int8ToUint64(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.Int16ToInt8(v) (r)
  panics_iff v < -128 || v > 127
  ensures [same-value] r == v

func safecast.Int16ToUint(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.Int16ToUint8(v) (r)
  panics_iff v < 0 || v > 255
  ensures [same-value] r == v

func safecast.Int16ToUint16(v) (r)
  panics_iff v < 0 || v > 65535
  ensures [same-value] r == v

func safecast.Int16ToUint32(v) (r)
  panics_iff v < 0 || v > 4294967295
  ensures [same-value] r == v

func safecast.Int16ToUint64(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.Int32ToInt8(v) (r)
  panics_iff v < -128 || v > 127
  ensures [same-value] r == v

func safecast.Int32ToInt16(v) (r)
  panics_iff v < -32768 || v > 32767
  ensures [same-value] r == v

func safecast.Int32ToUint(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.Int32ToUint8(v) (r)
  panics_iff v < 0 || v > 255
  ensures [same-value] r == v

func safecast.Int32ToUint16(v) (r)
  panics_iff v < 0 || v > 65535
  ensures [same-value] r == v

func safecast.Int32ToUint32(v) (r)
  panics_iff v < 0 || v > 4294967295
  ensures [same-value] r == v

func safecast.Int32ToUint64(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.Int64ToInt(v) (r)
  panics_iff v < -9223372036854775808 || v > 9223372036854775807
  ensures [same-value] r == v

func safecast.Int64ToInt8(v) (r)
  panics_iff v < -128 || v > 127
  ensures [same-value] r == v

func safecast.Int64ToInt16(v) (r)
  panics_iff v < -32768 || v > 32767
  ensures [same-value] r == v

func safecast.Int64ToInt32(v) (r)
  panics_iff v < -2147483648 || v > 2147483647
  ensures [same-value] r == v

func safecast.Int64ToUint(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.Int64ToUint8(v) (r)
  panics_iff v < 0 || v > 255
  ensures [same-value] r == v

func safecast.Int64ToUint16(v) (r)
  panics_iff v < 0 || v > 65535
  ensures [same-value] r == v

func safecast.Int64ToUint32(v) (r)
  panics_iff v < 0 || v > 4294967295
  ensures [same-value] r == v

func safecast.Int64ToUint64(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.IntToInt8(v) (r)
  panics_iff v < -128 || v > 127
  ensures [same-value] r == v

func safecast.IntToInt16(v) (r)
  panics_iff v < -32768 || v > 32767
  ensures [same-value] r == v

func safecast.IntToInt32(v) (r)
  panics_iff v < -2147483648 || v > 2147483647
  ensures [same-value] r == v

func safecast.IntToUint8(v) (r)
  panics_iff v < 0 || v > 255
  ensures [same-value] r == v

func safecast.IntToUint16(v) (r)
  panics_iff v < 0 || v > 65535
  ensures [same-value] r == v

func safecast.IntToUint32(v) (r)
  panics_iff v < 0 || v > 4294967295
  ensures [same-value] r == v

func safecast.IntToUint64(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.Uint8ToInt8(v) (r)
  panics_iff v < -128 || v > 127
  ensures [same-value] r == v

func safecast.Uint16ToInt8(v) (r)
  panics_iff v < -128 || v > 127
  ensures [same-value] r == v

func safecast.Uint16ToInt16(v) (r)
  panics_iff v < -32768 || v > 32767
  ensures [same-value] r == v

func safecast.Uint16ToUint8(v) (r)
  panics_iff v < 0 || v > 255
  ensures [same-value] r == v

func safecast.Uint32ToInt(v) (r)
  panics_iff v < -9223372036854775808 || v > 9223372036854775807
  ensures [same-value] r == v

func safecast.Uint32ToInt8(v) (r)
  panics_iff v < -128 || v > 127
  ensures [same-value] r == v

func safecast.Uint32ToInt16(v) (r)
  panics_iff v < -32768 || v > 32767
  ensures [same-value] r == v

func safecast.Uint32ToInt32(v) (r)
  panics_iff v < -2147483648 || v > 2147483647
  ensures [same-value] r == v

func safecast.Uint32ToUint8(v) (r)
  panics_iff v < 0 || v > 255
  ensures [same-value] r == v

func safecast.Uint32ToUint16(v) (r)
  panics_iff v < 0 || v > 65535
  ensures [same-value] r == v

func safecast.Uint64ToInt(v) (r)
  panics_iff v < -9223372036854775808 || v > 9223372036854775807
  ensures [same-value] r == v

func safecast.Uint64ToInt8(v) (r)
  panics_iff v < -128 || v > 127
  ensures [same-value] r == v

func safecast.Uint64ToInt16(v) (r)
  panics_iff v < -32768 || v > 32767
  ensures [same-value] r == v

func safecast.Uint64ToInt32(v) (r)
  panics_iff v < -2147483648 || v > 2147483647
  ensures [same-value] r == v

func safecast.Uint64ToInt64(v) (r)
  panics_iff v < -9223372036854775808 || v > 9223372036854775807
  ensures [same-value] r == v

func safecast.Uint64ToUint(v) (r)
  panics_iff v < 0 || v > 18446744073709551615
  ensures [same-value] r == v

func safecast.Uint64ToUint8(v) (r)
  panics_iff v < 0 || v > 255
  ensures [same-value] r == v

func safecast.Uint64ToUint16(v) (r)
  panics_iff v < 0 || v > 65535
  ensures [same-value] r == v

func safecast.Uint64ToUint32(v) (r)
  panics_iff v < 0 || v > 4294967295
  ensures [same-value] r == v

func safecast.UintToInt8(v) (r)
  panics_iff v < -128 || v > 127
  ensures [same-value] r == v

func safecast.UintToInt16(v) (r)
  panics_iff v < -32768 || v > 32767
  ensures [same-value] r == v

func safecast.UintToInt32(v) (r)
  panics_iff v < -2147483648 || v > 2147483647
  ensures [same-value] r == v

func safecast.UintToInt64(v) (r)
  panics_iff v < -9223372036854775808 || v > 9223372036854775807
  ensures [same-value] r == v

func safecast.UintToUint8(v) (r)
  panics_iff v < 0 || v > 255
  ensures [same-value] r == v

func safecast.UintToUint16(v) (r)
  panics_iff v < 0 || v > 65535
  ensures [same-value] r == v

func safecast.UintToUint32(v) (r)
  panics_iff v < 0 || v > 4294967295
  ensures [same-value] r == v
