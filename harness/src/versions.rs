//! Version queries
use crate::{conv::*, ops::*};
use gvas::{
    custom_version::{CustomVersionTrait, FCustomVersion, FEditorObjectVersion, FUE5ReleaseStreamObjectVersion},
    engine_version::FEngineVersion,
    object_version::EUnrealEngineObjectUE5Version,
    savegame_version::SaveGameVersion,
};
use serde_json::{Value, json};

macro_rules! named {
    ($f:ident, $l:ident, $t:ident, $($n:ident),*) => {
        const $l: &[&str] = &[$(stringify!($n)),*];
        #[rustfmt::skip]
        fn $f(name: &str) -> $t {
            match name {
                $(stringify!($n) => $t::$n,)*
                x => panic!("no version {x}"),
            }
        }
    };
}
named!(editor, EDITOR, FEditorObjectVersion, BeforeCustomVersionWasAdded, GatheredTextProcessVersionFlagging, GatheredTextPackageCacheFixesV1, RootMetaDataSupport, GatheredTextPackageCacheFixesV2, TextFormatArgumentDataIsVariant, SplineComponentCurvesInStruct, ComboBoxControllerSupportUpdate, RefactorMeshEditorMaterials, AddedFontFaceAssets, UPropertryForMeshSection, WidgetGraphSchema, AddedBackgroundBlurContentSlot, StableUserDefinedEnumDisplayNames, AddedInlineFontFaceAssets, UPropertryForMeshSectionSerialize, FastWidgetTemplates, MaterialThumbnailRenderingChanges, NewSlateClippingSystem, MovieSceneMetaDataSerialization, GatheredTextEditorOnlyPackageLocId, AddedAlwaysSignNumberFormattingOption, AddedMaterialSharedInputs, AddedMorphTargetSectionIndices, SerializeInstancedStaticMeshRenderData, MeshDescriptionNewSerializationMovedToRelease, MeshDescriptionNewAttributeFormat, ChangeSceneCaptureRootComponent, StaticMeshDeprecatedRawMesh, MeshDescriptionBulkDataGuid, MeshDescriptionRemovedHoles, ChangedWidgetComponentWindowVisibilityDefault, CultureInvariantTextSerializationKeyStability, ScrollBarThicknessChange, RemoveLandscapeHoleMaterial, MeshDescriptionTriangles, ComputeWeightedNormals, SkeletalMeshBuildRefactor, SkeletalMeshMoveEditorSourceDataToPrivateAsset, NumberParsingOptionsNumberLimitsAndClamping, SkeletalMeshSourceDataSupport16bitOfMaterialNumber);
named!(release, RELEASE, FUE5ReleaseStreamObjectVersion, BeforeCustomVersionWasAdded, ReflectionMethodEnum, WorldPartitionActorDescSerializeHLODInfo, RemovingTessellation, LevelInstanceSerializeRuntimeBehavior, PoseAssetRuntimeRefactor, WorldPartitionActorDescSerializeActorFolderPath, HairStrandsVertexFormatChange, AddChaosMaxLinearAngularSpeed, PackedLevelInstanceVersion, PackedLevelInstanceBoundsFix, CustomPropertyAnimGraphNodesUseOptionalPinManager, TextFormatArgumentData64bitSupport, MaterialLayerStacksAreNotParameters, MaterialInterfaceSavedCachedData, AddClothMappingLODBias, AddLevelActorPackagingScheme, WorldPartitionActorDescSerializeAttachParent, ConvertedActorGridPlacementToSpatiallyLoadedFlag, ActorGridPlacementDeprecateDefaultValueFixup, PackedLevelActorUseWorldPartitionActorDesc, AddLevelActorFolders, RemoveSkeletalMeshLODModelBulkDatas, ExcludeBrightnessFromEncodedHDRCubemap, VolumetricCloudSampleCountUnification, PoseAssetRawDataGUID, ConvolutionBloomIntensity, WorldPartitionHLODActorDescSerializeHLODSubActors, LargeWorldCoordinates, BlueprintPinsUseRealNumbers, UpdatedDirectionalLightShadowDefaults, GeometryCollectionConvexDefaults, ChaosClothFasterDamping, WorldPartitionLandscapeActorDescSerializeLandscapeActorGuid, AddedInertiaTensorAndRotationOfMassAddedToConvex, ChaosInertiaConvertedToVec3, SerializeFloatPinDefaultValuesAsSinglePrecision, AnimLayeredBoneBlendMasks, StoreReflectionCaptureEncodedHDRDataInRG11B10Format, RawAnimSequenceTrackSerializer, RemoveDuplicatedStyleInfo, LinkedAnimGraphMemberReference, DynamicMeshComponentsDefaultUseExternalTangents, MediaCaptureNewResizeMethods, RigVMSaveDebugMapInGraphFunctionData, LocalExposureDefaultChangeFrom1, WorldPartitionActorDescSerializeActorIsListedInSceneOutliner, OpenColorIODisabledDisplayConfigurationDefault, WorldPartitionExternalDataLayers, ChaosClothFictitiousAngularVelocitySubframeFix, SinglePrecisonParticleDataPT, OrthographicAutoNearFarPlane);
named!(object, OBJECT, EUnrealEngineObjectUE5Version, InitialVersion, NamesReferencedFromExportData, PayloadToc, OptionalResources, LargeWorldCoordinates, RemoveObjectExportPackageGuid, TrackObjectExportIsInherited, FsoftobjectpathRemoveAssetPathFnames, AddSoftobjectpathList, DataResources, ScriptSerializationOffset, PropertyTagExtensionAndOverridableSerialization, PropertyTagCompleteTypeName);

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Out {
    did();
    if got != exp {
        return Err(format!("{what}: {got:?} instead of {exp:?}"));
    }
    Ok(())
}
pub fn op_engine(v: &Value) -> Out {
    let e = &v["e"];
    let x = FEngineVersion::new(u16v(&e["maj"]), u16v(&e["min"]), u16v(&e["pat"]), u32v(&e["cl"]), st(&e["br"]));
    let name = guard(|| format!("{:?}", x.get_version()))?;
    eq("engine release", &*name, v["name"].as_str().unwrap())?;
    eq("engine version as text", guard(|| x.to_string())?, st(&v["text"]))?;
    eq("major", x.major, u16v(&e["maj"]))?;
    eq("minor", x.minor, u16v(&e["min"]))?;
    eq("patch", x.patch, u16v(&e["pat"]))?;
    eq("change list", x.change_list, u32v(&e["cl"]))?;
    eq("branch", x.branch, st(&e["br"]))
}
fn query<T: CustomVersionTrait + Into<u32>>(v: &Value, f: impl Fn(&str) -> T) -> Out {
    let mut o = Opts::new(v);
    let got = guard(|| o.get().get_custom_version::<T>())?;
    eq("custom version", got, FCustomVersion::new(guid(&v["guid"]), u32v(&v["version"])))?;
    for s in list(&v["sup"]) {
        let (name, n, yes) = (s[0].as_str().unwrap(), s[1].as_u64().unwrap() as u32, s[2] == true);
        eq(&format!("number of {name}"), Into::<u32>::into(f(name)), n)?;
        let got = guard(|| o.get().supports_version(f(name)))?;
        eq(&format!("support of {name} at version {:?}", u32v(&v["version"])), got, yes)?;
    }
    Ok(())
}
pub fn op_version(v: &Value) -> Out {
    match v["s"].as_str().unwrap() {
        "editor" => query(v, editor),
        _ => query(v, release),
    }
}
fn table<T: CustomVersionTrait>(v: &Value) -> Out {
    eq("GUID of the stream", T::GUID, guid(&v["guid"]))?;
    eq("name of the stream", T::FRIENDLY_NAME, v["friendly"].as_str().unwrap())?;
    for e in list(&v["at"]) {
        let at: Vec<i32> =
            T::VERSION_MAPPINGS.iter().filter(|(r, _)| Some(&*format!("{r:?}")) == e[0].as_str()).map(|m| m.1).collect();
        eq(&format!("version at {}", e[0]), at, vec![e[1].as_i64().unwrap() as i32])?;
    }
    Ok(())
}
/// what the queries answer, by stream and numbers asked for
pub fn answers(stream: &str, cvs: &Value, asked: &[usize]) -> Value {
    fn go<T: CustomVersionTrait + Into<u32>>(cvs: &Value, f: impl Fn(usize) -> T, asked: &[usize]) -> Value {
        let mut o = Opts { hints: Default::default(), stack: vec![], cvs: cvs_in(cvs) };
        let got = o.get().get_custom_version::<T>();
        let sup: Vec<u8> = asked.iter().map(|n| o.get().supports_version(f(*n)) as u8).collect();
        json!({"g": vb(&got.key.0), "v": vb(&got.version.to_le_bytes()), "sup": sup})
    }
    match stream {
        "editor" => go(cvs, |n| editor(EDITOR[n]), asked),
        _ => go(cvs, |n| release(RELEASE[n]), asked),
    }
}
pub fn op_stream(v: &Value) -> Out {
    match v["s"].as_str().unwrap() {
        "editor" => table::<FEditorObjectVersion>(v),
        _ => table::<FUE5ReleaseStreamObjectVersion>(v),
    }
}
pub fn op_numbers(v: &Value) -> Out {
    eq("number of object versions", list(&v["objects"]).len(), OBJECT.len())?;
    for o in list(&v["objects"]) {
        let name = o[0].as_str().unwrap();
        eq(name, Into::<u32>::into(object(name)), o[1].as_u64().unwrap() as u32)?;
    }
    eq("save game versions", [SaveGameVersion::InitialVersion.into(), SaveGameVersion::AddedCustomVersions.into(), SaveGameVersion::PackageFileSummaryVersionChange.into()], [1u32, 2, 3])
}
/// the custom versions of a header, as given and after being written and read
pub fn op_header_versions(v: &Value) -> Out {
    let h = header_in(&v["hdr"]);
    same("custom versions of a header", &guard(|| cvs_out(h.get_custom_versions()))?, &v["hdr"]["cvs"])?;
    let mut b = std::io::Cursor::new(vec![]);
    call(|| h.write(&mut b)).ok("header")?;
    b.set_position(0);
    let g = call(|| gvas::GvasHeader::read(&mut b)).ok("header read")?;
    same("custom versions of a header read", &guard(|| cvs_out(g.get_custom_versions()))?, &v["hdr"]["cvs"])?;
    eq("header", json!(header_out(&g)), json!(v["hdr"]))
}
/// every (major, minor) with one of the two small: only the listed ones are known
pub fn op_engines(v: &Value) -> Out {
    let known: std::collections::HashMap<(u16, u16), &str> = list(&v["known"])
        .iter()
        .map(|e| ((e[0].as_u64().unwrap() as u16, e[1].as_u64().unwrap() as u16), e[2].as_str().unwrap()))
        .collect();
    let small = v["small"].as_u64().unwrap() as u16;
    let mut e = FEngineVersion::new(0, 0, 0, 0, String::new());
    for big in 0..=u16::MAX {
        for n in 0..small {
            for (a, b) in [(big, n), (n, big)] {
                (e.major, e.minor) = (a, b);
                let is = e.get_version();
                match known.get(&(a, b)) {
                    Some(name) => eq("engine release", &*format!("{is:?}"), *name)?,
                    None if is != gvas::engine_version::EngineVersion::UNKNOWN => {
                        return Err(format!("engine release {a}.{b} is taken for {is:?}"));
                    }
                    None => {}
                }
            }
        }
    }
    did();
    Ok(())
}
