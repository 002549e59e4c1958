//! The instruction set, transcribed from JVMS chapter 6 / 7 as a table.
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    /// No operands.
    No,
    /// Signed immediate of one or two bytes.
    I1,
    I2,
    /// Local variable index of one byte (two when wide).
    Local,
    /// Local variable index implied by the opcode.
    Fixed(u8),
    /// Constant pool: loadable constant, one- or two-byte index.
    Load1,
    Load2,
    Field,
    Method,
    /// Method of a class or interface.
    AnyMethod,
    Iface,
    Indy,
    Class,
    /// Class or array type.
    Type,
    Multi,
    B2,
    B4,
    Iinc,
    NewArray,
    Table,
    Lookup,
    Wide,
}

#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub code: u8,
    pub name: &'static str,
    pub f: F,
    /// May follow a wide prefix.
    pub wide: bool,
    /// Reserved for debuggers; must not appear in a class file.
    pub reserved: bool,
}

const SIMPLE: &str = "
00 Nop,01 AconstNull,02 IconstM1,03 Iconst0,04 Iconst1,05 Iconst2,06 Iconst3,07 Iconst4,08 Iconst5,
09 Lconst0,0a Lconst1,0b Fconst0,0c Fconst1,0d Fconst2,0e Dconst0,0f Dconst1,
2e Iaload,2f Laload,30 Faload,31 Daload,32 Aaload,33 Baload,34 Caload,35 Saload,
4f Iastore,50 Lastore,51 Fastore,52 Dastore,53 Aastore,54 Bastore,55 Castore,56 Sastore,
57 Pop,58 Pop2,59 Dup,5a DupX1,5b DupX2,5c Dup2,5d Dup2X1,5e Dup2X2,5f Swap,
60 Iadd,61 Ladd,62 Fadd,63 Dadd,64 Isub,65 Lsub,66 Fsub,67 Dsub,68 Imul,69 Lmul,6a Fmul,6b Dmul,
6c Idiv,6d Ldiv,6e Fdiv,6f Ddiv,70 Irem,71 Lrem,72 Frem,73 Drem,74 Ineg,75 Lneg,76 Fneg,77 Dneg,
78 Ishl,79 Lshl,7a Ishr,7b Lshr,7c Iushr,7d Lushr,7e Iand,7f Land,80 Ior,81 Lor,82 Ixor,83 Lxor,
85 I2l,86 I2f,87 I2d,88 L2i,89 L2f,8a L2d,8b F2i,8c F2l,8d F2d,8e D2i,8f D2l,90 D2f,91 I2b,92 I2c,93 I2s,
94 Lcmp,95 Fcmpl,96 Fcmpg,97 Dcmpl,98 Dcmpg,
ac Ireturn,ad Lreturn,ae Freturn,af Dreturn,b0 Areturn,b1 Return,
be Arraylength,bf Athrow,c2 Monitorenter,c3 Monitorexit";

pub fn all() -> &'static Vec<Op> {
    static T: OnceLock<Vec<Op>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = Vec::new();
        let mut add = |code: u8, name: &'static str, f: F| {
            v.push(Op { code, name, f, wide: f == F::Local || f == F::Iinc, reserved: matches!(code, 0xca | 0xfe | 0xff) })
        };
        for item in SIMPLE.split(',') {
            let item = item.trim();
            add(u8::from_str_radix(&item[..2], 16).unwrap(), &item[3..], F::No);
        }
        add(0x10, "Bipush", F::I1);
        add(0x11, "Sipush", F::I2);
        add(0x12, "Ldc", F::Load1);
        add(0x13, "LdcW", F::Load2);
        add(0x14, "Ldc2W", F::Load2);
        for (k, n) in ["Iload", "Lload", "Fload", "Dload", "Aload"].iter().enumerate() {
            add(0x15 + k as u8, n, F::Local);
            for j in 0..4 {
                add(0x1a + 4 * k as u8 + j, n, F::Fixed(j));
            }
        }
        for (k, n) in ["Istore", "Lstore", "Fstore", "Dstore", "Astore"].iter().enumerate() {
            add(0x36 + k as u8, n, F::Local);
            for j in 0..4 {
                add(0x3b + 4 * k as u8 + j, n, F::Fixed(j));
            }
        }
        add(0x84, "Iinc", F::Iinc);
        for (k, n) in ["Ifeq", "Ifne", "Iflt", "Ifge", "Ifgt", "Ifle", "IfIcmpeq", "IfIcmpne", "IfIcmplt", "IfIcmpge", "IfIcmpgt", "IfIcmple", "IfAcmpeq", "IfAcmpne", "Goto", "Jsr"].iter().enumerate() {
            add(0x99 + k as u8, n, F::B2);
        }
        add(0xa9, "Ret", F::Local);
        add(0xaa, "Tableswitch", F::Table);
        add(0xab, "Lookupswitch", F::Lookup);
        add(0xb2, "Getstatic", F::Field);
        add(0xb3, "Putstatic", F::Field);
        add(0xb4, "Getfield", F::Field);
        add(0xb5, "Putfield", F::Field);
        add(0xb6, "Invokevirtual", F::Method);
        add(0xb7, "Invokespecial", F::AnyMethod);
        add(0xb8, "Invokestatic", F::AnyMethod);
        add(0xb9, "Invokeinterface", F::Iface);
        add(0xba, "Invokedynamic", F::Indy);
        add(0xbb, "New", F::Class);
        add(0xbc, "Newarray", F::NewArray);
        add(0xbd, "Anewarray", F::Type);
        add(0xc0, "Checkcast", F::Type);
        add(0xc1, "Instanceof", F::Type);
        add(0xc4, "Wide", F::Wide);
        add(0xc5, "Multianewarray", F::Multi);
        add(0xc6, "Ifnull", F::B2);
        add(0xc7, "Ifnonnull", F::B2);
        add(0xc8, "Goto", F::B4);
        add(0xc9, "Jsr", F::B4);
        add(0xca, "Breakpoint", F::No);
        add(0xfe, "Impdep1", F::No);
        add(0xff, "Impdep2", F::No);
        v.sort_by_key(|o| o.code);
        for w in v.windows(2) {
            assert!(w[0].code < w[1].code, "opcode {:#x} twice", w[1].code);
        }
        v
    })
}

pub fn by_code() -> &'static [Option<Op>; 256] {
    static T: OnceLock<Box<[Option<Op>; 256]>> = OnceLock::new();
    T.get_or_init(|| {
        let mut a = Box::new([None; 256]);
        for o in all() {
            a[o.code as usize] = Some(*o);
        }
        a
    })
}

pub const ATYPES: [(u8, &str); 8] = [(4, "Boolean"), (5, "Char"), (6, "Float"), (7, "Double"), (8, "Byte"), (9, "Short"), (10, "Int"), (11, "Long")];
