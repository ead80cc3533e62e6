#![allow(unused_imports, dead_code)]
use std::collections::HashMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

use gvas::{
    GvasFile, GvasHeader,
    cursor_ext::{ReadExt, WriteExt},
    engine_version::FEngineVersion,
    error::{DeserializeError, Error},
    game_version::{DeserializedGameVersion, GameVersion, PalworldCompressionType},
    properties::{
        Property, PropertyOptions, PropertyTrait, array_property::ArrayProperty, delegate_property::*, enum_property::EnumProperty,
        field_path_property::*, int_property::*, map_property::MapProperty, name_property::NameProperty, object_property::ObjectProperty,
        set_property::SetProperty, str_property::StrProperty, struct_property::*, struct_types::*, text_property::*,
        unknown_property::UnknownProperty,
    },
    types::{Guid, map::HashableIndexMap},
};

const UE5_RELEASE: [u32; 4] = [0xD89B5E42, 0x24BD4D46, 0x8412ACA8, 0xDF641779];
const EDITOR: [u32; 4] = [0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41];

fn versions(list: &[([u32; 4], u32)]) -> HashableIndexMap<Guid, u32> {
    let mut m = HashableIndexMap::new();
    for (g, v) in list {
        m.insert(Guid::from_u32(*g), *v);
    }
    m
}

fn header(list: &[([u32; 4], u32)]) -> GvasHeader {
    GvasHeader::Version2 {
        package_file_version: 0x205,
        engine_version: FEngineVersion::new(4, 27, 2, 1, "b".into()),
        custom_version_format: 3,
        custom_versions: versions(list),
        save_game_class_name: "S".into(),
    }
}

fn file(props: Vec<(&str, Property)>, list: &[([u32; 4], u32)]) -> GvasFile {
    let mut properties = HashableIndexMap::new();
    for (k, p) in props {
        properties.insert(k.to_string(), p);
    }
    GvasFile { deserialized_game_version: DeserializedGameVersion::Default, header: header(list), properties }
}

fn save(f: &GvasFile) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    f.write(&mut c).expect("write");
    c.into_inner()
}

fn load(b: &[u8]) -> Result<GvasFile, Error> {
    GvasFile::read(&mut Cursor::new(b.to_vec()), GameVersion::Default)
}

fn load_hints(b: &[u8], hints: &[(&str, &str)]) -> Result<GvasFile, Error> {
    let h: HashMap<String, String> = hints.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    GvasFile::read_with_hints(&mut Cursor::new(b.to_vec()), GameVersion::Default, &h)
}

