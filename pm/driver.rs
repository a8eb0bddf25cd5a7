// Expanded by the exploration; see run.py. The tokens below are what the compiler hands to it.
macro_rules! through {
    ($e:expr, $t:ty, $i:ident, $l:lifetime, $lit:literal, $tt:tt, $p:path) => {
        pm::explore! {
            ($e) $t $i $l $lit $tt $p
            [ local tokens == != <<= .. ..= => -> :: && || 'a 'static r#fn r#type ]
            "string\n" r#"raw"# b"bytes" c"cstr" 'c' b'b' 1 0x2Fu8 1.5e3f32 1_000
            "over
 two é lines" (open
	é	[ tab
] close) br"a

b"
            /// outer doc
            /** block doc */
            /** block doc over
              * lines */
            é { ( [ deep ( a . b ; ) ] ) { } ( ) [ ] } - 1 -1 $e + $e
        }
    };
}
through!(1 + 2 * (x - 3), Vec<Option<u8>>, name, 'life, "lit", { t t { } }, a::b::<C>);
