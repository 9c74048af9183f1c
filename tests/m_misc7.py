"""Generated protobuf code, and further rewrites."""
import os
RM, TY = 'src/proto/remote.rs', 'src/proto/types.rs'
def src(f): return open(os.path.join('/repo', f)).read()
def at(f, m, old, new, tr='::protobuf::Message', fn=None):
    """first `old` after the impl header (and fn) of message m"""
    s = src(f)
    i = s.index('impl %s for %s {' % (tr, m)) if tr else s.index('impl %s {' % m)
    if fn: i = s.index('fn %s(' % fn, i)
    j = s.index(old, i)
    h = s[i:j]
    # make the old text unique: from the header on
    k = s.rindex('impl ', 0, i) if fn else i
    k = s.index('impl %s for %s {' % (tr, m)) if tr else s.index('impl %s {' % m)
    return (f, s[k:j] + old, s[k:j] + new)
MF, CS, WR = 'merge_from', 'compute_size', 'write_to_with_cached_sizes'
HELPER = '''
fn expect_wire(got: ::protobuf::wire_format::WireType, want: ::protobuf::wire_format::WireType) -> ::protobuf::ProtobufResult<()> {
    if got != want {
        return Err(::protobuf::rt::unexpected_wire_type(got));
    }
    Ok(())
}
'''
M = [
('m7-label-swap-read-bad', 'S03', [at(TY, 'Label', '&mut self.name', '&mut self.value', fn=MF)]),
('m7-label-swap-both-bad', 'S03', [at(TY, 'Label', '''                1 => {
                    ::protobuf::rt::read_singular_proto3_string_into(
                        wire_type,
                        is,
                        &mut self.name,''', '''                2 => {
                    ::protobuf::rt::read_singular_proto3_string_into(
                        wire_type,
                        is,
                        &mut self.name,''', fn=MF)]),
('m7-label-write-num-bad', 'S03', [at(TY, 'Label', 'os.write_string(2, &self.value)', 'os.write_string(3, &self.value)', fn=WR)]),
('m7-label-write-swap-bad', 'S03', [at(TY, 'Label', 'os.write_string(2, &self.value)', 'os.write_string(2, &self.name)', fn=WR)]),
('m7-label-write-skip-bad', 'S03', [at(TY, 'Label', 'if !self.value.is_empty() {', 'if !self.value.is_empty() && self.value != self.name {', fn=WR), ]),
('m7-label-size-bad', 'S03', [at(TY, 'Label', 'my_size += ::protobuf::rt::string_size(2, &self.value);', 'my_size += ::protobuf::rt::string_size(2, &self.name);', fn=CS)]),
('m7-label-size-drop-bad', 'S03', [at(TY, 'Label', 'if !self.value.is_empty() {', 'if self.value.len() > 1 {', fn=CS)]),
('m7-label-size-uncached-bad', 'S03', [at(TY, 'Label', '        self.cached_size.set(my_size);\n', '', fn=CS)]),
('m7-label-size-early-bad', 'S03', [at(TY, 'Label', '''        if !self.value.is_empty() {
            my_size += ::protobuf::rt::string_size(2, &self.value);
        }
        my_size += ::protobuf::rt::unknown_fields_size(self.get_unknown_fields());
        self.cached_size.set(my_size);
''', '''        self.cached_size.set(my_size);
        if !self.value.is_empty() {
            my_size += ::protobuf::rt::string_size(2, &self.value);
        }
        my_size += ::protobuf::rt::unknown_fields_size(self.get_unknown_fields());
''', fn=CS)]),
('m7-sample-neg-bad', 'S03', [at(TY, 'Sample', 'if self.timestamp != 0 {', 'if self.timestamp > 0 {', fn=WR)]),
('m7-sample-read32-bad', 'S03', [at(TY, 'Sample', 'let tmp = is.read_int64()?;\n                    self.timestamp = tmp;', 'let tmp = is.read_int32()?;\n                    self.timestamp = tmp as i64;', fn=MF)]),
('m7-sample-cast-bad', 'S03', [at(TY, 'Sample', 'self.timestamp = tmp;', 'self.timestamp = tmp as u32 as i64;', fn=MF)]),
('m7-sample-abs-bad', 'S03', [at(TY, 'Sample', 'self.timestamp = tmp;', 'self.timestamp = tmp.max(0);', fn=MF)]),
('m7-sample-float-bad', 'S03', [at(TY, 'Sample', 'os.write_double(1, self.value)', 'os.write_double(1, self.value as f32 as f64)', fn=WR)]),
('m7-sample-sint-bad', 'S03', [at(TY, 'Sample', 'os.write_int64(2, self.timestamp)', 'os.write_sint64(2, self.timestamp)', fn=WR)]),
('m7-sample-err-bad', 'S03', [at(TY, 'Sample', 'os.write_double(1, self.value)?;', 'let _ = os.write_double(1, self.value);', fn=WR)]),
('m7-sample-size8-bad', 'S03', [at(TY, 'Sample', 'my_size += 9;', 'my_size += 8;', fn=CS)]),
('m7-sample-pos-size-bad', 'S03', [at(TY, 'Sample', 'if self.timestamp != 0 {', 'if self.timestamp > 0 {', fn=CS)]),
('m7-sample-tiny-bad', 'S03', [at(TY, 'Sample', 'if self.value != 0. {', 'if self.value.abs() > 1e-9 {', fn=WR), ]),
('m7-query-swap-bad', 'S03', [at(RM, 'Query', 'self.start_timestamp_ms = tmp;', 'self.end_timestamp_ms = tmp;', fn=MF)]),
('m7-query-once-bad', 'S03', [at(RM, 'Query', 'self.end_timestamp_ms = tmp;', 'if self.end_timestamp_ms < tmp { self.end_timestamp_ms = tmp; }', fn=MF)]),
('m7-query-neg-refuse-bad', 'S03', [at(RM, 'Query', '''                    let tmp = is.read_int64()?;
                    self.start_timestamp_ms = tmp;''', '''                    let tmp = is.read_int64()?;
                    if tmp < 0 {
                        return ::std::result::Result::Err(::protobuf::rt::unexpected_wire_type(
                            wire_type,
                        ));
                    }
                    self.start_timestamp_ms = tmp;''', fn=MF)]),
('m7-query-matchers-bad', 'S03', [at(RM, 'Query', '''                3 => {
                    ::protobuf::rt::read_repeated_message_into(wire_type, is, &mut self.matchers)?;
                }
''', '''                3 => {
                    self.matchers.clear();
                    ::protobuf::rt::read_repeated_message_into(wire_type, is, &mut self.matchers)?;
                }
''', fn=MF)]),
('m7-query-wire-bad', 'S03', [at(RM, 'Query', 'if wire_type != ::protobuf::wire_format::WireTypeVarint {', 'if wire_type != ::protobuf::wire_format::WireTypeFixed64 {', fn=MF)]),
('m7-query-stop-bad', 'S03', [at(RM, 'Query', '''                4 => {
                    ::protobuf::rt::read_singular_message_into(wire_type, is, &mut self.hints)?;
                }
''', '''                4 => {
                    ::protobuf::rt::read_singular_message_into(wire_type, is, &mut self.hints)?;
                    break;
                }
''', fn=MF)]),
('m7-query-lenient-bad', 'S03', [at(RM, 'Query', 'while !is.eof()? {', 'while !is.eof().unwrap_or(true) {', fn=MF)]),
('m7-query-panic-bad', 'S02', [at(RM, 'Query', 'let (field_number, wire_type) = is.read_tag_unpack()?;', 'let (field_number, wire_type) = is.read_tag_unpack().unwrap();', fn=MF)]),
('m7-ts-samples-first-bad', 'S03', [at(TY, 'TimeSeries', 'os.write_tag(2, ', 'os.write_tag(1, ', fn=WR)]),
('m7-ts-skip-zero-bad', 'S03', [at(TY, 'TimeSeries', '''        for v in &self.samples {
            os.write_tag''', '''        for v in &self.samples {
            if v.timestamp == 0 {
                continue;
            }
            os.write_tag''', fn=WR)]),
('m7-ts-rev-bad', 'S03', [at(TY, 'TimeSeries', 'for v in &self.samples {\n            os', 'for v in self.samples.iter().rev() {\n            os', fn=WR)]),
('m7-ts-len-bad', 'S03', [at(TY, 'TimeSeries', 'os.write_raw_varint32(v.get_cached_size())?;', 'os.write_raw_varint32(self.get_cached_size())?;', fn=WR)]),
('m7-ts-size-bad', 'S03', [at(TY, 'TimeSeries', 'my_size += 1 + ::protobuf::rt::compute_raw_varint32_size(len) + len;', 'my_size += 2 + len;', fn=CS)]),
('m7-ts-read-bad', 'S03', [at(TY, 'TimeSeries', '::protobuf::rt::read_repeated_message_into(wire_type, is, &mut self.samples)?;', '''if !self.samples.is_empty() {
                        ::protobuf::rt::read_unknown_or_skip_group(field_number, wire_type, is, self.mut_unknown_fields())?;
                        continue;
                    }
                    ::protobuf::rt::read_repeated_message_into(wire_type, is, &mut self.samples)?;''', fn=MF)]),
('m7-cached-bad', 'S03', [at(TY, 'Sample', 'self.cached_size.get()', '18', fn='get_cached_size')]),
('m7-matcher-enum-bad', 'S03 S04', [at(TY, 'LabelMatcher_Type', '2 => ::std::option::Option::Some(LabelMatcher_Type::RE)', '2 => ::std::option::Option::Some(LabelMatcher_Type::NRE)', tr='::protobuf::ProtobufEnum')]),
('m7-matcher-enum-none-bad', 'S03 S04', [at(TY, 'LabelMatcher_Type', '3 => ::std::option::Option::Some(LabelMatcher_Type::NRE),', '', tr='::protobuf::ProtobufEnum')]),
('m7-matcher-skip-bad', 'S03 S04', [at(TY, 'LabelMatcher', '''1 => ::protobuf::rt::read_proto3_enum_with_unknown_fields_into(
                    wire_type,
                    is,
                    &mut self.field_type,
                    1,
                    &mut self.unknown_fields,
                )?,
''', '', fn=MF)]),
('m7-matcher-num-bad', 'S03', [at(TY, 'LabelMatcher', 'os.write_string(2, &self.name)', 'os.write_string(1, &self.name)', fn=WR)]),
('m7-response-bad', 'S03', [at(RM, 'ReadResponse', '''        for v in &self.results {
            os.write_tag''', '''        for v in self.results.iter().take(1) {
            os.write_tag''', fn=WR)]),
('m7-result-empty-bad', 'S03', [at(RM, 'QueryResult', '''        for v in &self.timeseries {
            os.write_tag''', '''        for v in &self.timeseries {
            if v.samples.is_empty() {
                continue;
            }
            os.write_tag''', fn=WR)]),
('m7-write-first-bad', 'S03', [at(RM, 'WriteRequest', '''                1 => {
                    ::protobuf::rt::read_repeated_message_into''', '''                1 => {
                    self.timeseries = ::protobuf::RepeatedField::new();
                    ::protobuf::rt::read_repeated_message_into''', fn=MF)]),
('m7-init-bad', 'S03', [at(TY, 'Label', '''        true
    }''', '''        !self.name.is_empty()
    }''', fn='is_initialized')]),
# rewrites that keep the behaviour
('m7-sample-helper', '', [at(TY, 'Sample', '''                    if wire_type != ::protobuf::wire_format::WireTypeFixed64 {
                        return ::std::result::Result::Err(::protobuf::rt::unexpected_wire_type(
                            wire_type,
                        ));
                    }
                    let tmp = is.read_double()?;
                    self.value = tmp;''', '''                    expect_wire(wire_type, ::protobuf::wire_format::WireTypeFixed64)?;
                    self.value = is.read_double()?;''', fn=MF), (TY, None, HELPER)]),
('m7-sample-if', '', [at(TY, 'Sample', '''                2 => {
                    if wire_type != ::protobuf::wire_format::WireTypeVarint {
                        return ::std::result::Result::Err(::protobuf::rt::unexpected_wire_type(
                            wire_type,
                        ));
                    }
                    let tmp = is.read_int64()?;
                    self.timestamp = tmp;
                }
''', '''                2 if wire_type == ::protobuf::wire_format::WireTypeVarint => {
                    self.timestamp = is.read_int64()?;
                }
                2 => {
                    return Err(::protobuf::rt::unexpected_wire_type(wire_type));
                }
''', fn=MF)]),
('m7-sample-always', '', [at(TY, 'Sample', '''        if self.timestamp != 0 {
            os.write_int64(2, self.timestamp)?;
        }
''', '''        os.write_int64(2, self.timestamp)?;
''', fn=WR), ]),
('m7-sample-order', '', [at(TY, 'Sample', '''        if self.value != 0. {
            os.write_double(1, self.value)?;
        }
        if self.timestamp != 0 {
            os.write_int64(2, self.timestamp)?;
        }
''', '''        if self.timestamp != 0 {
            os.write_int64(2, self.timestamp)?;
        }
        if self.value != 0. {
            os.write_double(1, self.value)?;
        }
''', fn=WR)]),
('m7-label-len', '', [at(TY, 'Label', 'if !self.name.is_empty() {', 'if self.name.len() > 0 {', fn=WR)]),
('m7-label-size', '', [at(TY, 'Label', '''        let mut my_size = 0;
        if !self.name.is_empty() {
            my_size += ::protobuf::rt::string_size(1, &self.name);
        }
''', '''        let mut my_size = if self.name.is_empty() {
            0
        } else {
            ::protobuf::rt::string_size(1, &self.name)
        };
''', fn=CS)]),
('m7-ts-size', '', [at(TY, 'TimeSeries', '''        for value in &self.labels {
            let len = value.compute_size();
            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size(len) + len;
        }
''', '''        my_size += self
            .labels
            .iter()
            .map(|value| value.compute_size())
            .map(|len| 1 + ::protobuf::rt::compute_raw_varint32_size(len) + len)
            .sum::<u32>();
''', fn=CS)]),
('m7-ts-write', '', [at(TY, 'TimeSeries', '''        for v in &self.labels {
            os.write_tag(1, ::protobuf::wire_format::WireTypeLengthDelimited)?;
            os.write_raw_varint32(v.get_cached_size())?;
            v.write_to_with_cached_sizes(os)?;
        }
''', '''        self.labels.iter().try_for_each(|v| {
            os.write_tag(1, ::protobuf::wire_format::WireTypeLengthDelimited)?;
            os.write_raw_varint32(v.get_cached_size())?;
            v.write_to_with_cached_sizes(os)
        })?;
''', fn=WR)]),
('m7-query-loop', '', [at(RM, 'Query', '''        while !is.eof()? {
            let (field_number, wire_type) = is.read_tag_unpack()?;
            match field_number {''', '''        loop {
            if is.eof()? {
                break;
            }
            let (field_number, wire_type) = is.read_tag_unpack()?;
            match field_number {''', fn=MF)]),
('m7-matcher-match', '', [at(TY, 'LabelMatcher', '''        if self.field_type != LabelMatcher_Type::EQ {
            os.write_enum(1, self.field_type.value())?;
        }
''', '''        match self.field_type {
            LabelMatcher_Type::EQ => {}
            other => os.write_enum(1, other.value())?,
        }
''', fn=WR)]),
('m7-enum-if', '', [at(TY, 'LabelMatcher_Type', '''        match value {
            0 => ::std::option::Option::Some(LabelMatcher_Type::EQ),
            1 => ::std::option::Option::Some(LabelMatcher_Type::NEQ),
            2 => ::std::option::Option::Some(LabelMatcher_Type::RE),
            3 => ::std::option::Option::Some(LabelMatcher_Type::NRE),
            _ => ::std::option::Option::None,
        }
''', '''        Self::values().iter().find(|t| t.value() == value).copied()
''', tr='::protobuf::ProtobufEnum')]),
]
