// The functions that C programs are promised (also included by build.rs).
use std::collections::BTreeMap;

/// Every function that C programs are promised: name and signature.
pub fn spec() -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut add = |sig: String| {
        let sig = sig.replace("Ch::", "tp_client__contract__properties__channels__").replace("St::", "tp_client__contract__properties__states__").replace("B::", "tp_client__baseline__Baseline__").replace("OH", "tp_client__object__ObjectHandle_t").replace("CH", "tp_client__contract__ContractDataHandle_t").replace("C::", "tp_client__contract__").replace("O::", "tp_client__object__").replace("X::", "tp_contract_example__");
        let (head, _) = sig.split_once('(').unwrap();
        let name = head.trim().rsplit(' ').next().unwrap().to_string();
        m.insert(name, norm(&sig));
    };
    let types = [
        ("U8", "uint8_t"), ("U16", "uint16_t"), ("U32", "uint32_t"), ("U64", "uint64_t"), ("I8", "int8_t"), ("I16", "int16_t"), ("I32", "int32_t"), ("I64", "int64_t"),
        ("Bool", "bool"), ("F32", "float"), ("F64", "double"), ("String", "String_t"), ("ObjectHandle", "OH"), ("ContractDataHandle", "CH"),
    ];
    for (i, (n, v)) in types.iter().enumerate() {
        for s in [
            "St::State_N_t * St::State_N__new(V *)", "void St::State_N__drop(St::State_N_t *)", "V const * St::State_N__value(St::State_N_t const *)", "void St::State_N__value_set(St::State_N_t *, V *)",
            "CH * St::StateId_N__contract(St::StateId_N_t const *)", "void St::StateId_N__drop(St::StateId_N_t *)", "void St::StateHandle_N__drop(St::StateHandle_N_t *)",
            "CH * Ch::ChannelId_N__contract(Ch::ChannelId_N_t const *)", "void Ch::ChannelId_N__drop(Ch::ChannelId_N_t *)", "void Ch::ChannelHandle_N__drop(Ch::ChannelHandle_N_t *)",
            "Ch::Keyframe_N_t * Ch::Keyframe_N__new(V *, double)", "void Ch::Keyframe_N__drop(Ch::Keyframe_N_t *)", "V const * Ch::Keyframe_N__value(Ch::Keyframe_N_t const *)", "double Ch::Keyframe_N__time(Ch::Keyframe_N_t const *)",
            "Vec_Ch::Keyframe_N_t Ch::RVec_KeyframeN__new(void)", "void Ch::RVec_KeyframeN__push(Vec_Ch::Keyframe_N_t *, Ch::Keyframe_N_t *)", "Ch::Keyframe_N_t const * Ch::RVec_KeyframeN__get(Vec_Ch::Keyframe_N_t const *, size_t)",
            "void Ch::RVec_KeyframeN__set(Vec_Ch::Keyframe_N_t *, size_t, Ch::Keyframe_N_t *)", "void Ch::RVec_KeyframeN__drop(Vec_Ch::Keyframe_N_t)",
            "Ch::Channel_N_t * Ch::Channel_N__new(Vec_Ch::Keyframe_N_t)", "void Ch::Channel_N__drop(Ch::Channel_N_t *)",
            "Vec_Ch::Keyframe_N_const_ptr_t Ch::Channel_N__keyframes(Ch::Channel_N_t const *)", "Vec_Ch::Keyframe_N_ptr_t Ch::Channel_N__keyframes_mut(Ch::Channel_N_t *)",
            "void Ch::Channel_N__keyframes_drop(Vec_Ch::Keyframe_N_const_ptr_t)", "void Ch::Channel_N__keyframes_mut_drop(Vec_Ch::Keyframe_N_ptr_t)",
            "St::State_N_t const * B::state_N(Baseline_t const *, St::StateHandle_N_t const *)", "St::State_N_t * B::state_mut_N(Baseline_t *, St::StateHandle_N_t const *)",
            "Ch::Channel_N_t const * B::channel_N(Baseline_t const *, Ch::ChannelHandle_N_t const *)", "Ch::Channel_N_t * B::channel_mut_N(Baseline_t *, Ch::ChannelHandle_N_t const *)",
            "St::StateHandle_N_t * B::bind_state_N(Baseline_t const *, St::StateId_N_t const *, OH const *)", "Ch::ChannelHandle_N_t * B::bind_channel_N(Baseline_t const *, Ch::ChannelId_N_t const *, OH const *)",
        ] {
            // N and V as whole words only
            let s = s.replace("_N_", "_\u{1}_").replace("_N(", "_\u{1}(").replace("KeyframeN_", "Keyframe\u{1}_");
            add(s.replace("V ", &format!("{v} ")).replace('\u{1}', n));
        }
        if i < 11 {
            add(format!("{v} * rsharp__Box_{n}__new({v})"));
            add(format!("void rsharp__Box_{n}__drop({v} *)"));
        }
    }
    for s in [
        "Baseline_t * B::new(BaselineKind_t)", "void B::drop(Baseline_t *)", "BaselineKind_t B::kind(Baseline_t const *)", "C::ContractData_t const * B::contract_data(Baseline_t const *, CH const *)",
        "Object_t const * B::object(Baseline_t const *, OH const *)", "Object_t * B::object_mut(Baseline_t *, OH const *)",
        "C::ContractId_t const * C::ContractData__id(C::ContractData_t const *)", "Vec_OH C::ContractData__objects(C::ContractData_t const *)", "void C::ContractDataHandle__drop(CH *)",
        "slice_ref_uint8_t C::ContractId__name(C::ContractId_t const *)", "C::ContractId_Version_t C::ContractId__version(C::ContractId_t const *)",
        "void O::ObjectHandle__drop(OH *)", "Vec_OH O::RVec_ObjectHandle__new(void)", "void O::RVec_ObjectHandle__push(Vec_OH *, OH *)", "OH const * O::RVec_ObjectHandle__get(Vec_OH const *, size_t)",
        "void O::RVec_ObjectHandle__set(Vec_OH *, size_t, OH *)", "void O::RVec_ObjectHandle__drop(Vec_OH)",
        "slice_ref_uint8_t rsharp__String__value(String_t const *)", "void rsharp__String__drop(String_t *)", "String_t * rsharp__String__copy_utf8(slice_ref_uint8_t)", "String_t * rsharp__String__copy_utf16(slice_ref_uint16_t)",
        "X::ExampleContract_t * X::ExampleContract__register(Baseline_t *)", "void X::ExampleContract__drop(X::ExampleContract_t *)", "CH * X::ExampleContract__handle(X::ExampleContract_t const *)",
        "X::ExampleStates_t const * X::ExampleContract__states(X::ExampleContract_t const *)",
        "OH * X::ExampleContract__object_create(X::ExampleContract_t const *, Baseline_t *, uint8_t, uint8_t, int8_t, int8_t, float, float, String_t *, OH *, CH *)", "void X::ExampleContract__object_remove(Baseline_t *, OH *)",
        "BallContract_t * BallContract__register(Baseline_t *)", "void BallContract__unregister(Baseline_t *, CH *)", "void BallContract__drop(BallContract_t *)", "CH * BallContract__handle(BallContract_t const *)",
        "BallStates_t const * BallContract__states(BallContract_t const *)",
        "OH * BallContract__object_create(Baseline_t *, BallContract_t const *, float, float, float, int16_t, int16_t, int16_t, float, float, float, uint64_t)", "void BallContract__object_remove(Baseline_t *, OH *)",
    ] {
        add(s.into())
    }
    for (f, t) in [("u8_0", "U8"), ("u8_1", "U8"), ("i8_0", "I8"), ("i8_1", "I8"), ("f32_0", "F32"), ("f32_1", "F32"), ("str_0", "String"), ("oh_0", "ObjectHandle"), ("ch_0", "ContractDataHandle")] {
        add(format!("St::StateId_{t}_t * X::ExampleStates__{f}(X::ExampleStates_t const *)"))
    }
    for (f, t) in [("pos_x", "F32"), ("pos_y", "F32"), ("pos_z", "F32"), ("euler_x", "I16"), ("euler_y", "I16"), ("euler_z", "I16"), ("scale_x", "F32"), ("scale_y", "F32"), ("scale_z", "F32"), ("color", "U64")] {
        add(format!("St::StateId_{t}_t * BallStates__{f}(BallStates_t const *)"))
    }
    m
}
/// One space between words, none elsewhere.
pub fn norm(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_whitespace() {
            if !o.ends_with(' ') {
                o.push(' ')
            }
        } else if "()*,".contains(c) {
            while o.ends_with(' ') {
                o.pop();
            }
            o.push(c)
        } else {
            o.push(c)
        }
    }
    let mut r = String::new();
    for (i, c) in o.char_indices() {
        if c == ' ' && (i == 0 || "()*,".contains(&o[i - 1..i])) {
            continue;
        }
        r.push(c)
    }
    r.trim().into()
}
