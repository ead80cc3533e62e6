------------------------------ MODULE Versions ------------------------------
(***************************************************************************)
(* The version tables of the format: engine releases, the numbering of the *)
(* two custom-version streams that decide layouts, object versions; and    *)
(* what the queries about them answer.                                     *)
(***************************************************************************)
EXTENDS GvasEnc

\* the engine release named by (major, minor)
EngineName(maj, min) == IF maj = 4 /\ min <= 27 THEN "VER_UE4_" \o ToString(min)
                        ELSE IF maj = 5 /\ min <= 2 THEN "VER_UE5_" \o ToString(min)
                        ELSE "UNKNOWN"
\* decimal digits of a little-endian number
RECURSIVE Digits(_, _)
DivTen(b) == LET r == FoldLeft(LAMBDA a, i : LET d == b[Len(b) + 1 - i]  v == a.r * 256 + d IN [q |-> <<v \div 10>> \o a.q, r |-> v % 10],
                               [q |-> <<>>, r |-> 0], Tup([i \in 1..Len(b) |-> i])) IN r
Digits(b, acc) == LET d == DivTen(b) IN IF d.q = Tup([i \in 1..Len(b) |-> 0]) THEN <<48 + d.r>> \o acc ELSE Digits(d.q, <<48 + d.r>> \o acc)
Dec(b) == Digits(b, <<>>)
Negate(b) == \* two's complement
  LET r == FoldLeft(LAMBDA a, x : LET v == 255 - x + a.c IN [q |-> Append(a.q, v % 256), c |-> v \div 256], [q |-> <<>>, c |-> 1], b) IN r.q
DecSigned(b) == IF b[Len(b)] >= 128 THEN S("-") \o Dec(Negate(b)) ELSE Dec(b)
\* an engine version as text
EngineText(e) == Dec(e.maj) \o S(".") \o Dec(e.min) \o S(".") \o Dec(e.pat) \o S("-") \o Dec(e.cl) \o S("+++") \o e.br

EditorNames == <<
  "BeforeCustomVersionWasAdded", "GatheredTextProcessVersionFlagging", "GatheredTextPackageCacheFixesV1", "RootMetaDataSupport",
  "GatheredTextPackageCacheFixesV2", "TextFormatArgumentDataIsVariant", "SplineComponentCurvesInStruct", "ComboBoxControllerSupportUpdate",
  "RefactorMeshEditorMaterials", "AddedFontFaceAssets", "UPropertryForMeshSection", "WidgetGraphSchema", "AddedBackgroundBlurContentSlot",
  "StableUserDefinedEnumDisplayNames", "AddedInlineFontFaceAssets", "UPropertryForMeshSectionSerialize", "FastWidgetTemplates",
  "MaterialThumbnailRenderingChanges", "NewSlateClippingSystem", "MovieSceneMetaDataSerialization", "GatheredTextEditorOnlyPackageLocId",
  "AddedAlwaysSignNumberFormattingOption", "AddedMaterialSharedInputs", "AddedMorphTargetSectionIndices", "SerializeInstancedStaticMeshRenderData",
  "MeshDescriptionNewSerializationMovedToRelease", "MeshDescriptionNewAttributeFormat", "ChangeSceneCaptureRootComponent",
  "StaticMeshDeprecatedRawMesh", "MeshDescriptionBulkDataGuid", "MeshDescriptionRemovedHoles", "ChangedWidgetComponentWindowVisibilityDefault",
  "CultureInvariantTextSerializationKeyStability", "ScrollBarThicknessChange", "RemoveLandscapeHoleMaterial", "MeshDescriptionTriangles",
  "ComputeWeightedNormals", "SkeletalMeshBuildRefactor", "SkeletalMeshMoveEditorSourceDataToPrivateAsset",
  "NumberParsingOptionsNumberLimitsAndClamping", "SkeletalMeshSourceDataSupport16bitOfMaterialNumber" >>
ReleaseNames == <<
  "BeforeCustomVersionWasAdded", "ReflectionMethodEnum", "WorldPartitionActorDescSerializeHLODInfo", "RemovingTessellation",
  "LevelInstanceSerializeRuntimeBehavior", "PoseAssetRuntimeRefactor", "WorldPartitionActorDescSerializeActorFolderPath",
  "HairStrandsVertexFormatChange", "AddChaosMaxLinearAngularSpeed", "PackedLevelInstanceVersion", "PackedLevelInstanceBoundsFix",
  "CustomPropertyAnimGraphNodesUseOptionalPinManager", "TextFormatArgumentData64bitSupport", "MaterialLayerStacksAreNotParameters",
  "MaterialInterfaceSavedCachedData", "AddClothMappingLODBias", "AddLevelActorPackagingScheme", "WorldPartitionActorDescSerializeAttachParent",
  "ConvertedActorGridPlacementToSpatiallyLoadedFlag", "ActorGridPlacementDeprecateDefaultValueFixup", "PackedLevelActorUseWorldPartitionActorDesc",
  "AddLevelActorFolders", "RemoveSkeletalMeshLODModelBulkDatas", "ExcludeBrightnessFromEncodedHDRCubemap", "VolumetricCloudSampleCountUnification",
  "PoseAssetRawDataGUID", "ConvolutionBloomIntensity", "WorldPartitionHLODActorDescSerializeHLODSubActors", "LargeWorldCoordinates",
  "BlueprintPinsUseRealNumbers", "UpdatedDirectionalLightShadowDefaults", "GeometryCollectionConvexDefaults", "ChaosClothFasterDamping",
  "WorldPartitionLandscapeActorDescSerializeLandscapeActorGuid", "AddedInertiaTensorAndRotationOfMassAddedToConvex", "ChaosInertiaConvertedToVec3",
  "SerializeFloatPinDefaultValuesAsSinglePrecision", "AnimLayeredBoneBlendMasks", "StoreReflectionCaptureEncodedHDRDataInRG11B10Format",
  "RawAnimSequenceTrackSerializer", "RemoveDuplicatedStyleInfo", "LinkedAnimGraphMemberReference", "DynamicMeshComponentsDefaultUseExternalTangents",
  "MediaCaptureNewResizeMethods", "RigVMSaveDebugMapInGraphFunctionData", "LocalExposureDefaultChangeFrom1",
  "WorldPartitionActorDescSerializeActorIsListedInSceneOutliner", "OpenColorIODisabledDisplayConfigurationDefault",
  "WorldPartitionExternalDataLayers", "ChaosClothFictitiousAngularVelocitySubframeFix", "SinglePrecisonParticleDataPT", "OrthographicAutoNearFarPlane" >>
ObjectNames == <<
  "InitialVersion", "NamesReferencedFromExportData", "PayloadToc", "OptionalResources", "LargeWorldCoordinates", "RemoveObjectExportPackageGuid",
  "TrackObjectExportIsInherited", "FsoftobjectpathRemoveAssetPathFnames", "AddSoftobjectpathList", "DataResources", "ScriptSerializationOffset",
  "PropertyTagExtensionAndOverridableSerialization", "PropertyTagCompleteTypeName" >>
\* the n-th name of a stream stands for n
Stream == [editor |-> [guid |-> GEditor, friendly |-> "FEditorObjectVersion", names |-> EditorNames],
           release |-> [guid |-> GUe5Release, friendly |-> "FUE5ReleaseStreamObjectVersion", names |-> ReleaseNames]]
\* the version of the editor stream that each release came with, newest first
EditorAt == <<
  <<"VER_UE4_26", "SkeletalMeshSourceDataSupport16bitOfMaterialNumber">>,
  <<"VER_UE4_25", "SkeletalMeshMoveEditorSourceDataToPrivateAsset">>,
  <<"VER_UE4_24", "SkeletalMeshBuildRefactor">>,
  <<"VER_UE4_23", "RemoveLandscapeHoleMaterial">>,
  <<"VER_UE4_22", "MeshDescriptionRemovedHoles">>,
  <<"VER_UE4_21", "MeshDescriptionNewAttributeFormat">>,
  <<"VER_UE4_20", "SerializeInstancedStaticMeshRenderData">>,
  <<"VER_UE4_19", "AddedMorphTargetSectionIndices">>,
  <<"VER_UE4_17", "GatheredTextEditorOnlyPackageLocId">>,
  <<"VER_UE4_16", "MaterialThumbnailRenderingChanges">>,
  <<"VER_UE4_15", "AddedInlineFontFaceAssets">>,
  <<"VER_UE4_14", "AddedFontFaceAssets">>,
  <<"VER_UE4_13", "SplineComponentCurvesInStruct">>,
  <<"VER_UE4_12", "GatheredTextPackageCacheFixesV1">>,
  <<"VER_UE4_OLDEST_LOADABLE_PACKAGE", "BeforeCustomVersionWasAdded">> >>
NumberOf(names, n) == (CHOOSE i \in 1..Len(names) : names[i] = n) - 1
\* newer releases come with newer versions
ASSUME \A i \in 1..(Len(EditorAt) - 1) : NumberOf(EditorNames, EditorAt[i][2]) > NumberOf(EditorNames, EditorAt[i + 1][2])
\* the layout decisions of the format, by name
ASSUME NumberOf(ReleaseNames, "LargeWorldCoordinates") = 28 /\ NumberOf(ReleaseNames, "TextFormatArgumentData64bitSupport") = 12
ASSUME NumberOf(EditorNames, "CultureInvariantTextSerializationKeyStability") = 32
\* a save without an entry is at version 0
VersionOf(cvs, s) == CvOf(cvs, Stream[s].guid)
Supports(cvs, s, n) == Geq(VersionOf(cvs, s), LE4(n))
=============================================================================
