//! Turns what cafebabe reports into the reference's value trees, and notes where every string
//! and byte slice lies.
use cafebabe::attributes::*;
use cafebabe::bytecode::*;
use cafebabe::constant_pool::*;
use cafebabe::descriptors::*;
use cafebabe::*;
use refmodel::t;
use refmodel::value::*;
use std::borrow::Cow;

#[derive(Default)]
pub struct Adapter {
    lo: usize,
    hi: usize,
    /// Strings that could have been borrows from the input but are not, or are empty of meaning.
    pub bad_borrows: Vec<String>,
    pub borrowed: u64,
    pub owned: u64,
}

/// Whether text is the same bytes in UTF-8 and in modified UTF-8.
pub fn plain(x: &str) -> bool {
    x.chars().all(|c| c != '\0' && (c as u32) < 0x10000)
}

impl Adapter {
    pub fn new(input: &[u8]) -> Adapter {
        let lo = input.as_ptr() as usize;
        Adapter { lo, hi: lo + input.len(), ..Adapter::default() }
    }
    fn inside(&self, p: *const u8, n: usize) -> bool {
        let p = p as usize;
        p >= self.lo && p + n <= self.hi
    }
    fn note(&mut self, x: &str, could: bool, what: &str) {
        if x.is_empty() {
            return;
        }
        if self.inside(x.as_ptr(), x.len()) {
            self.borrowed += 1;
        } else {
            self.owned += 1;
            if could && self.bad_borrows.len() < 20 {
                let short: String = x.chars().take(40).collect();
                self.bad_borrows.push(format!("{what} {short:?}"));
            }
        }
    }
    fn c(&mut self, x: &Cow<'_, str>) -> V {
        self.note(x, plain(x), "text");
        if let Cow::Owned(_) = x {
            if plain(x) && !x.is_empty() && self.bad_borrows.len() < 20 {
                self.bad_borrows.push(format!("owned {:?}", x.chars().take(40).collect::<String>()));
            }
        }
        s(x)
    }
    fn co(&mut self, x: &Option<Cow<'_, str>>) -> V {
        match x {
            Some(x) => self.c(x),
            None => V::None,
        }
    }
    fn cs(&mut self, x: &[Cow<'_, str>]) -> V {
        V::L(x.iter().map(|x| self.c(x)).collect())
    }
    fn bytes(&mut self, x: &[u8]) -> V {
        // An empty slice is a borrow of nothing.
        if x.is_empty() || self.inside(x.as_ptr(), x.len()) {
            self.borrowed += 1;
        } else {
            self.owned += 1;
            self.bad_borrows.push(format!("{} bytes", x.len()));
        }
        V::B(x.to_vec())
    }
    fn cn(&mut self, x: &ClassName<'_>) -> V {
        self.note(x, plain(x), "class name");
        s(x)
    }
    fn ftype(&mut self, x: &FieldType<'_>, could: bool) -> V {
        match x {
            FieldType::Byte => s("B"),
            FieldType::Char => s("C"),
            FieldType::Double => s("D"),
            FieldType::Float => s("F"),
            FieldType::Integer => s("I"),
            FieldType::Long => s("J"),
            FieldType::Short => s("S"),
            FieldType::Boolean => s("Z"),
            FieldType::Object(n) => {
                self.note(n, could, "class name in a descriptor");
                t!("Object"; "class" => s(n))
            }
        }
    }
    fn fd(&mut self, x: &FieldDescriptor<'_>) -> V {
        let text = x.to_string();
        self.fd_in(x, plain(&text))
    }
    fn fd_in(&mut self, x: &FieldDescriptor<'_>, could: bool) -> V {
        let ty = self.ftype(&x.field_type, could);
        t!("Desc"; "dims" => u(x.dimensions), "type" => ty, "text" => s(&x.to_string()))
    }
    fn md(&mut self, x: &MethodDescriptor<'_>) -> V {
        let text = x.to_string();
        let could = plain(&text);
        let params = V::L(x.parameters.iter().map(|p| self.fd_in(p, could)).collect());
        let ret = match &x.return_type {
            ReturnDescriptor::Void => t!("Void"),
            ReturnDescriptor::Return(d) => self.fd_in(d, could),
        };
        t!("MDesc"; "params" => params, "ret" => ret, "text" => s(&text))
    }
    fn lit(&mut self, x: &LiteralConstant<'_>) -> V {
        match x {
            LiteralConstant::Integer(v) => t!("Int"; "v" => i(*v)),
            LiteralConstant::Float(v) => t!("Float"; "v" => V::Bits(v.to_bits().into())),
            LiteralConstant::Long(v) => t!("Long"; "v" => i(*v)),
            LiteralConstant::Double(v) => t!("Double"; "v" => V::Bits(v.to_bits())),
            LiteralConstant::String(v) => t!("Str"; "v" => self.c(v)),
            LiteralConstant::StringBytes(v) => t!("StrBytes"; "v" => self.bytes(v)),
        }
    }
    fn member(&mut self, x: &MemberRef<'_>) -> V {
        t!("MemberRef"; "class" => self.c(&x.class_name), "name" => self.c(&x.name_and_type.name), "desc" => self.c(&x.name_and_type.descriptor))
    }
    fn nt(&mut self, x: &NameAndType<'_>) -> V {
        t!("NameAndType"; "name" => self.c(&x.name), "desc" => self.c(&x.descriptor))
    }
    fn handle(&mut self, x: &MethodHandle<'_>) -> V {
        let kind = match x.kind {
            ReferenceKind::GetField => "GetField",
            ReferenceKind::GetStatic => "GetStatic",
            ReferenceKind::PutField => "PutField",
            ReferenceKind::PutStatic => "PutStatic",
            ReferenceKind::InvokeVirtual => "InvokeVirtual",
            ReferenceKind::InvokeStatic => "InvokeStatic",
            ReferenceKind::InvokeSpecial => "InvokeSpecial",
            ReferenceKind::NewInvokeSpecial => "NewInvokeSpecial",
            ReferenceKind::InvokeInterface => "InvokeInterface",
        };
        let mk = match x.member_kind {
            MemberKind::Field => "Field",
            MemberKind::Method => "Method",
            MemberKind::InterfaceMethod => "InterfaceMethod",
        };
        let m = t!("MemberRef"; "class" => self.c(&x.class_name), "name" => self.c(&x.member_ref.name), "desc" => self.c(&x.member_ref.descriptor));
        t!("Handle"; "kind" => s(kind), "member_kind" => s(mk), "member" => m)
    }
    fn dynamic(&mut self, x: &Dynamic<'_>) -> V {
        t!("Dyn"; "bsm" => u(x.attr_index), "name" => self.c(&x.name_and_type.name), "desc" => self.c(&x.name_and_type.descriptor))
    }
    fn indy(&mut self, x: &InvokeDynamic<'_>) -> V {
        t!("Indy"; "bsm" => u(x.attr_index), "name" => self.c(&x.name_and_type.name), "desc" => self.c(&x.name_and_type.descriptor))
    }
    fn loadable(&mut self, x: &Loadable<'_>) -> V {
        match x {
            Loadable::LiteralConstant(l) => self.lit(l),
            Loadable::ClassInfo(n) => t!("ClassInfo"; "name" => self.c(n)),
            Loadable::MethodHandle(h) => self.handle(h),
            Loadable::MethodType(d) => t!("MType"; "desc" => self.c(d)),
            Loadable::Dynamic(d) => self.dynamic(d),
        }
    }
    fn barg(&mut self, x: &BootstrapArgument<'_>) -> V {
        match x {
            BootstrapArgument::LiteralConstant(l) => self.lit(l),
            BootstrapArgument::ClassInfo(n) => t!("ClassInfo"; "name" => self.c(n)),
            BootstrapArgument::MethodHandle(h) => self.handle(h),
            BootstrapArgument::MethodType(d) => t!("MType"; "desc" => self.c(d)),
            BootstrapArgument::Dynamic(d) => self.dynamic(d),
        }
    }

    pub fn item(&mut self, x: &ConstantPoolItem<'_>) -> V {
        let r = |name, a: &mut Adapter, x: &MemberRef<'_>| {
            let V::T(_, f) = a.member(x) else { unreachable!() };
            V::T(name, f)
        };
        match x {
            ConstantPoolItem::LiteralConstant(l) => self.lit(l),
            ConstantPoolItem::ClassInfo(n) => t!("ClassInfo"; "name" => self.c(n)),
            ConstantPoolItem::FieldRef(m) => r("FieldRef", self, m),
            ConstantPoolItem::MethodRef(m) => r("MethodRef", self, m),
            ConstantPoolItem::InterfaceMethodRef(m) => r("InterfaceMethodRef", self, m),
            ConstantPoolItem::NameAndType(n) => self.nt(n),
            ConstantPoolItem::MethodHandle(h) => self.handle(h),
            ConstantPoolItem::MethodType(d) => t!("MType"; "desc" => self.c(d)),
            ConstantPoolItem::Dynamic(d) => self.dynamic(d),
            ConstantPoolItem::InvokeDynamic(d) => self.indy(d),
            ConstantPoolItem::ModuleInfo(n) => t!("Module"; "name" => self.c(n)),
            ConstantPoolItem::PackageInfo(n) => t!("Package"; "name" => self.c(n)),
        }
    }

    pub fn pool<'a>(&mut self, x: &'a ClassFile<'a>) -> Vec<V> {
        x.constantpool_iter().map(|x| self.item(&x)).collect()
    }

    pub fn class(&mut self, x: &ClassFile<'_>) -> V {
        let fields = x
            .fields
            .iter()
            .map(|f| t!("Field"; "access" => u(f.access_flags.bits()), "name" => self.c(&f.name), "desc" => self.fd(&f.descriptor), "attributes" => self.attrs(&f.attributes)))
            .collect();
        let methods = x
            .methods
            .iter()
            .map(|f| t!("Method"; "access" => u(f.access_flags.bits()), "name" => self.c(&f.name), "desc" => self.md(&f.descriptor), "attributes" => self.attrs(&f.attributes)))
            .collect();
        t!("Class";
            "major" => u(x.major_version), "minor" => u(x.minor_version), "access" => u(x.access_flags.bits()),
            "this" => self.cn(&x.this_class),
            "super" => x.super_class.as_ref().map_or(V::None, |n| self.cn(n)),
            "interfaces" => V::L(x.interfaces.iter().map(|n| self.cn(n)).collect()),
            "fields" => V::L(fields), "methods" => V::L(methods), "attributes" => self.attrs(&x.attributes))
    }

    fn attrs(&mut self, x: &[AttributeInfo<'_>]) -> V {
        V::L(x.iter().map(|a| t!("Attr"; "name" => self.c(&a.name), "data" => self.data(&a.data))).collect())
    }

    fn object(&mut self, x: &ObjectArrayType<'_>) -> V {
        match x {
            ObjectArrayType::ArrayType(d) => t!("Array"; "desc" => self.fd(d)),
            ObjectArrayType::BinaryName(n) => t!("Class"; "name" => self.c(n)),
        }
    }

    fn ver(&mut self, x: &VerificationType<'_>) -> V {
        match x {
            VerificationType::Top => t!("Top"),
            VerificationType::Integer => t!("Integer"),
            VerificationType::Float => t!("Float"),
            VerificationType::Long => t!("Long"),
            VerificationType::Double => t!("Double"),
            VerificationType::Null => t!("Null"),
            VerificationType::UninitializedThis => t!("UninitializedThis"),
            VerificationType::Uninitialized { code_offset } => t!("Uninitialized"; "offset" => u(*code_offset)),
            VerificationType::Object { class_name } => t!("Object"; "class" => self.c(class_name)),
        }
    }
    fn vers(&mut self, x: &[VerificationType<'_>]) -> V {
        V::L(x.iter().map(|x| self.ver(x)).collect())
    }

    fn anno(&mut self, x: &Annotation<'_>) -> V {
        let elements = x.elements.iter().map(|e| t!("Element"; "name" => self.c(&e.name), "value" => self.element(&e.value))).collect();
        t!("Annotation"; "type" => self.fd(&x.type_descriptor), "elements" => V::L(elements))
    }
    fn annos(&mut self, x: &[Annotation<'_>]) -> V {
        V::L(x.iter().map(|a| self.anno(a)).collect())
    }
    fn element(&mut self, x: &AnnotationElementValue<'_>) -> V {
        use AnnotationElementValue as A;
        let int = |v: &i32| t!("Int"; "v" => i(*v));
        match x {
            A::ByteConstant(v) => t!("Byte"; "value" => int(v)),
            A::CharConstant(v) => t!("Char"; "value" => int(v)),
            A::IntConstant(v) => t!("Int"; "value" => int(v)),
            A::ShortConstant(v) => t!("Short"; "value" => int(v)),
            A::BooleanConstant(v) => t!("Boolean"; "value" => int(v)),
            A::DoubleConstant(v) => t!("Double"; "value" => t!("Double"; "v" => V::Bits(v.to_bits()))),
            A::FloatConstant(v) => t!("Float"; "value" => t!("Float"; "v" => V::Bits(v.to_bits().into()))),
            A::LongConstant(v) => t!("Long"; "value" => t!("Long"; "v" => i(*v))),
            A::StringConstant(v) => t!("String"; "text" => self.c(v)),
            A::EnumConstant { type_name, const_name } => t!("Enum"; "type" => self.fd(type_name), "name" => self.c(const_name)),
            A::ClassLiteral { class_name } => t!("Class"; "desc" => self.c(class_name)),
            A::AnnotationValue(a) => t!("Nested"; "annotation" => self.anno(a)),
            A::ArrayValue(v) => t!("Array"; "values" => V::L(v.iter().map(|v| self.element(v)).collect())),
        }
    }
    fn params(&mut self, x: &[ParameterAnnotation<'_>]) -> V {
        V::L(x.iter().map(|p| self.annos(&p.annotations)).collect())
    }
    fn type_annos(&mut self, x: &[TypeAnnotation<'_>]) -> V {
        use TypeAnnotationTarget as T;
        use TypeAnnotationTargetPathKind as K;
        let f = |x: &TypeAnnotation<'_>| {
            let target = match &x.target_type {
                T::TypeParameter { index } => t!("TypeParameter"; "index" => u(*index)),
                T::Supertype { index } => t!("Supertype"; "index" => u(*index)),
                T::TypeParameterBound { type_parameter_index, bound_index } => t!("TypeParameterBound"; "parameter" => u(*type_parameter_index), "bound" => u(*bound_index)),
                T::Empty => t!("Empty"),
                T::FormalParameter { index } => t!("FormalParameter"; "index" => u(*index)),
                T::Throws { index } => t!("Throws"; "index" => u(*index)),
                T::LocalVar(l) => t!("LocalVar"; "vars" => V::L(l.iter().map(|e| t!("Range"; "start" => u(e.start_pc), "length" => u(e.length), "index" => u(e.index))).collect())),
                T::Catch { exception_table_index } => t!("Catch"; "index" => u(*exception_table_index)),
                T::Offset { offset } => t!("Offset"; "offset" => u(*offset)),
                T::TypeArgument { offset, type_argument_index } => t!("TypeArgument"; "offset" => u(*offset), "index" => u(*type_argument_index)),
            };
            let path = x
                .target_path
                .iter()
                .map(|p| {
                    let k = match p.path_kind {
                        K::DeeperArray => "DeeperArray",
                        K::DeeperNested => "DeeperNested",
                        K::WildcardTypeArgument => "WildcardTypeArgument",
                        K::TypeArgument => "TypeArgument",
                    };
                    t!("Path"; "kind" => s(k), "index" => u(p.argument_index))
                })
                .collect();
            t!("TypeAnnotation"; "target" => target, "path" => V::L(path), "annotation" => self.anno(&x.annotation))
        };
        V::L(x.iter().map(f).collect())
    }

    fn data(&mut self, x: &AttributeData<'_>) -> V {
        use AttributeData as A;
        match x {
            A::ConstantValue(l) => t!("ConstantValue"; "value" => self.lit(l)),
            A::Code(c) => {
                let exceptions = c
                    .exception_table
                    .iter()
                    .map(|e| t!("Handler"; "start" => u(e.start_pc), "end" => u(e.end_pc), "handler" => u(e.handler_pc), "catch" => self.co(&e.catch_type)))
                    .collect();
                t!("Code"; "max_stack" => u(c.max_stack), "max_locals" => u(c.max_locals), "code" => self.bytes(c.code),
                    "insns" => c.bytecode.as_ref().map_or(V::None, |b| self.code(b)),
                    "exceptions" => V::L(exceptions), "attributes" => self.attrs(&c.attributes))
            }
            A::StackMapTable(f) => {
                let f = f
                    .iter()
                    .map(|f| match f {
                        StackMapEntry::Same { offset_delta } => t!("Same"; "delta" => u(*offset_delta)),
                        StackMapEntry::SameLocals1StackItem { offset_delta, stack } => t!("Same1"; "delta" => u(*offset_delta), "stack" => self.ver(stack)),
                        StackMapEntry::Chop { offset_delta, chop_count } => t!("Chop"; "delta" => u(*offset_delta), "count" => u(*chop_count)),
                        StackMapEntry::Append { offset_delta, locals } => t!("Append"; "delta" => u(*offset_delta), "locals" => self.vers(locals)),
                        StackMapEntry::FullFrame { offset_delta, locals, stack } => t!("Full"; "delta" => u(*offset_delta), "locals" => self.vers(locals), "stack" => self.vers(stack)),
                    })
                    .collect();
                t!("StackMapTable"; "frames" => V::L(f))
            }
            A::Exceptions(c) => t!("Exceptions"; "classes" => self.cs(c)),
            A::InnerClasses(c) => {
                let c = c
                    .iter()
                    .map(|c| t!("Inner"; "inner" => self.c(&c.inner_class_info), "outer" => self.co(&c.outer_class_info), "name" => self.co(&c.inner_name), "access" => u(c.access_flags.bits())))
                    .collect();
                t!("InnerClasses"; "classes" => V::L(c))
            }
            A::EnclosingMethod { class_name, method } => {
                t!("EnclosingMethod"; "class" => self.c(class_name), "method" => method.as_ref().map_or(V::None, |m| self.nt(m)))
            }
            A::Synthetic => t!("Synthetic"),
            A::Signature(x) => t!("Signature"; "text" => self.c(x)),
            A::SourceFile(x) => t!("SourceFile"; "text" => self.c(x)),
            A::SourceDebugExtension(x) => t!("SourceDebugExtension"; "text" => self.c(x)),
            A::LineNumberTable(l) => t!("LineNumberTable"; "lines" => V::L(l.iter().map(|l| t!("Line"; "start" => u(l.start_pc), "line" => u(l.line_number))).collect())),
            A::LocalVariableTable(l) => {
                let l = l
                    .iter()
                    .map(|v| t!("Var"; "start" => u(v.start_pc), "length" => u(v.length), "name" => self.c(&v.name), "desc" => self.fd(&v.descriptor), "index" => u(v.index)))
                    .collect();
                t!("LocalVariableTable"; "vars" => V::L(l))
            }
            A::LocalVariableTypeTable(l) => {
                let l = l
                    .iter()
                    .map(|v| t!("VarType"; "start" => u(v.start_pc), "length" => u(v.length), "name" => self.c(&v.name), "signature" => self.c(&v.signature), "index" => u(v.index)))
                    .collect();
                t!("LocalVariableTypeTable"; "vars" => V::L(l))
            }
            A::Deprecated => t!("Deprecated"),
            A::RuntimeVisibleAnnotations(a) => t!("RuntimeVisibleAnnotations"; "annotations" => self.annos(a)),
            A::RuntimeInvisibleAnnotations(a) => t!("RuntimeInvisibleAnnotations"; "annotations" => self.annos(a)),
            A::RuntimeVisibleParameterAnnotations(a) => t!("RuntimeVisibleParameterAnnotations"; "parameters" => self.params(a)),
            A::RuntimeInvisibleParameterAnnotations(a) => t!("RuntimeInvisibleParameterAnnotations"; "parameters" => self.params(a)),
            A::RuntimeVisibleTypeAnnotations(a) => t!("RuntimeVisibleTypeAnnotations"; "annotations" => self.type_annos(a)),
            A::RuntimeInvisibleTypeAnnotations(a) => t!("RuntimeInvisibleTypeAnnotations"; "annotations" => self.type_annos(a)),
            A::AnnotationDefault(v) => t!("AnnotationDefault"; "value" => self.element(v)),
            A::BootstrapMethods(m) => {
                let m = m
                    .iter()
                    .map(|m| t!("Bootstrap"; "method" => self.handle(&m.method), "args" => V::L(m.arguments.iter().map(|a| self.barg(a)).collect())))
                    .collect();
                t!("BootstrapMethods"; "entries" => V::L(m))
            }
            A::MethodParameters(p) => {
                let p = p.iter().map(|p| t!("Param"; "name" => self.co(&p.name), "access" => u(p.access_flags.bits()))).collect();
                t!("MethodParameters"; "params" => V::L(p))
            }
            A::Module(m) => {
                let requires = m.requires.iter().map(|r| t!("Requires"; "name" => self.c(&r.name), "access" => u(r.flags.bits()), "version" => self.co(&r.version))).collect();
                let exports = m.exports.iter().map(|r| t!("Exports"; "package" => self.c(&r.package_name), "access" => u(r.flags.bits()), "to" => self.cs(&r.exports_to))).collect();
                let opens = m.opens.iter().map(|r| t!("Opens"; "package" => self.c(&r.package_name), "access" => u(r.flags.bits()), "to" => self.cs(&r.opens_to))).collect();
                let provides = m.provides.iter().map(|r| t!("Provides"; "service" => self.c(&r.service_interface_name), "with" => self.cs(&r.provides_with))).collect();
                t!("Module"; "name" => self.c(&m.name), "access" => u(m.access_flags.bits()), "version" => self.co(&m.version),
                    "requires" => V::L(requires), "exports" => V::L(exports), "opens" => V::L(opens), "uses" => self.cs(&m.uses), "provides" => V::L(provides))
            }
            A::ModulePackages(p) => t!("ModulePackages"; "packages" => self.cs(p)),
            A::ModuleMainClass(c) => t!("ModuleMainClass"; "class" => self.c(c)),
            A::NestHost(c) => t!("NestHost"; "class" => self.c(c)),
            A::NestMembers(c) => t!("NestMembers"; "classes" => self.cs(c)),
            A::PermittedSubclasses(c) => t!("PermittedSubclasses"; "classes" => self.cs(c)),
            A::Record(c) => {
                let c = c
                    .iter()
                    .map(|c| t!("Component"; "name" => self.c(&c.name), "desc" => self.fd(&c.descriptor), "attributes" => self.attrs(&c.attributes)))
                    .collect();
                t!("Record"; "components" => V::L(c))
            }
            A::Other(b) => t!("Other"; "bytes" => self.bytes(b)),
        }
    }

    fn code(&mut self, x: &ByteCode<'_>) -> V {
        V::L(x.opcodes.iter().map(|(o, op)| t!("Insn"; "offset" => u(*o as u64), "op" => self.op(op))).collect())
    }

    fn op(&mut self, x: &Opcode<'_>) -> V {
        macro_rules! ops {
            (none: $($n:ident)*; local: $($l:ident)*; field: $($f:ident)*; branch: $($b:ident)*; load: $($d:ident)*; obj: $($o:ident)*; $($p:pat => $v:expr,)*) => {
                match x {
                    $(Opcode::$n => t!(stringify!($n)),)*
                    $(Opcode::$l(v) => t!(stringify!($l); "v" => u(*v)),)*
                    $(Opcode::$f(m) => t!(stringify!($f); "ref" => self.member(m)),)*
                    $(Opcode::$b(o) => t!(stringify!($b); "offset" => i(*o)),)*
                    $(Opcode::$d(c) => t!(stringify!($d); "v" => self.loadable(c)),)*
                    $(Opcode::$o(c) => t!(stringify!($o); "type" => self.object(c)),)*
                    $($p => $v,)*
                }
            };
        }
        ops! {
            none: Aaload Aastore AconstNull Areturn Arraylength Athrow Baload Bastore Breakpoint Caload Castore D2f D2i D2l Dadd Daload Dastore
                Dcmpg Dcmpl Dconst0 Dconst1 Ddiv Dmul Dneg Drem Dreturn Dsub Dup DupX1 DupX2 Dup2 Dup2X1 Dup2X2 F2d F2i F2l Fadd Faload Fastore
                Fcmpg Fcmpl Fconst0 Fconst1 Fconst2 Fdiv Fmul Fneg Frem Freturn Fsub I2b I2c I2d I2f I2l I2s Iadd Iaload Iand Iastore IconstM1
                Iconst0 Iconst1 Iconst2 Iconst3 Iconst4 Iconst5 Idiv Impdep1 Impdep2 Imul Ineg Ior Irem Ireturn Ishl Ishr Isub Iushr Ixor
                L2d L2f L2i Ladd Laload Land Lastore Lcmp Lconst0 Lconst1 Ldiv Lmul Lneg Lor Lrem Lreturn Lshl Lshr Lsub Lushr Lxor
                Monitorenter Monitorexit Nop Pop Pop2 Return Saload Sastore Swap;
            local: Aload Astore Dload Dstore Fload Fstore Iload Istore Lload Lstore Ret;
            field: Getfield Getstatic Putfield Putstatic Invokespecial Invokestatic Invokevirtual;
            branch: Goto Jsr IfAcmpeq IfAcmpne IfIcmpeq IfIcmpge IfIcmpgt IfIcmple IfIcmplt IfIcmpne Ifeq Ifge Ifgt Ifle Iflt Ifne Ifnonnull Ifnull;
            load: Ldc LdcW Ldc2W;
            obj: Anewarray Checkcast Instanceof;
            Opcode::Bipush(v) => t!("Bipush"; "v" => i(*v)),
            Opcode::Sipush(v) => t!("Sipush"; "v" => i(*v)),
            Opcode::Iinc(l, d) => t!("Iinc"; "local" => u(*l), "delta" => i(*d)),
            Opcode::Invokeinterface(m, n) => t!("Invokeinterface"; "ref" => self.member(m), "count" => u(*n)),
            Opcode::Invokedynamic(d) => t!("Invokedynamic"; "ref" => self.indy(d)),
            Opcode::New(c) => t!("New"; "class" => self.c(c)),
            Opcode::Multianewarray(c, n) => t!("Multianewarray"; "type" => self.object(c), "dims" => u(*n)),
            Opcode::Newarray(k) => {
                let k = match k {
                    PrimitiveArrayType::Boolean => "Boolean",
                    PrimitiveArrayType::Char => "Char",
                    PrimitiveArrayType::Float => "Float",
                    PrimitiveArrayType::Double => "Double",
                    PrimitiveArrayType::Byte => "Byte",
                    PrimitiveArrayType::Short => "Short",
                    PrimitiveArrayType::Int => "Int",
                    PrimitiveArrayType::Long => "Long",
                };
                t!("Newarray"; "type" => s(k))
            },
            Opcode::Tableswitch(w) => t!("Tableswitch"; "default" => i(w.default), "low" => i(w.low), "high" => i(w.high), "jumps" => V::L(w.jumps.iter().map(|j| i(*j)).collect())),
            Opcode::Lookupswitch(w) => t!("Lookupswitch"; "default" => i(w.default), "pairs" => V::L(w.match_offsets.iter().map(|(m, o)| t!("Pair"; "match" => i(*m), "offset" => i(*o))).collect())),
        }
    }
}
