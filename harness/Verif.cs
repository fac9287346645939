
// Inputs of the verification harness: each call returns one symbolic value.
public static class Verif
{
    [Internal] public static extern Boolean Verif_Bool(Int32 k);
    [Internal] public static extern Int8   Verif_I8(Int32 k);
    [Internal] public static extern UInt8  Verif_U8(Int32 k);
    [Internal] public static extern Int16  Verif_I16(Int32 k);
    [Internal] public static extern UInt16 Verif_U16(Int32 k);
    [Internal] public static extern Int32  Verif_I32(Int32 k);
    [Internal] public static extern UInt32 Verif_U32(Int32 k);
    [Internal] public static extern Int64  Verif_I64(Int32 k);
    [Internal] public static extern UInt64 Verif_U64(Int32 k);
    [Internal] public static extern Char   Verif_Char(Int32 k);
    [Internal] public static extern Single Verif_F32(Int32 k);
    [Internal] public static extern Double Verif_F64(Int32 k);
}
