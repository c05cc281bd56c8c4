"""Reviewed table: what each function's return value means.

FAIL[fn] is the value by which fn reports failure.  Derived once from the
bodies (functions returning NOTOK / NULL on failure), read and frozen here.
"""
PTR_FAIL = set('''
gp_New gp_DupGraph _K23Search_DupContext _K33Search_DupContext _K4Search_DupContext _DrawPlanar_DupContext
sf_New sb_New sb_Duplicate sb_TakeString LCNew sp_New sp_Duplicate _RenderToString MakeGraph ReadTextFileIntoString
ConstructInputFilename
malloc calloc realloc strdup fopen
'''.split())

STATUS = set('''
gp_AddExtension gp_RemoveExtension gp_CopyExtensions gp_CreateDFSTree _SortVertices gp_SortVertices gp_LowpointAndLeastAncestor
gp_LeastAncestor gp_InitGraph _InitGraph gp_EnsureArcCapacity _EnsureArcCapacity _ClearVisitedFlagsInBicomp
_ClearVisitedFlagsInOtherBicomps _ClearVisitedFlagsOnPath _SetVisitedFlagsOnPath _FillVertexVisitedInfoInBicomp
_ClearVertexTypeInBicomp gp_CopyAdjacencyLists gp_CopyGraph gp_CreateRandomGraph gp_CreateRandomGraphEx
gp_AddEdge gp_DynamicAddEdge gp_InsertEdge _HideInternalEdges _RestoreHiddenEdges _RestoreInternalEdges gp_HideVertex _HideVertex
gp_ContractEdge _ContractEdge _IdentifyVertices gp_IdentifyVertices _RestoreVertex gp_RestoreVertex gp_RestoreVertices _SetEdgeType
_DeleteUnmarkedEdgesInBicomp _ClearInvertedFlagsInBicomp _SearchForK23InBicomp _IsolateOuterplanarityObstructionE1orE2
_IsolateOuterplanarityObstructionE3orE4 gp_AttachK23Search gp_DetachK23Search _K23Search_HandleBlockedBicomp
_K23Search_EmbedPostprocess _K23Search_CheckEmbeddingIntegrity _K23Search_CheckObstructionIntegrity _SearchForK33InBicomp
_RunExtraK33Tests _SearchForMinorE1 _FinishIsolatorContextInitialization _FindExternalConnectionDescendantEndpoint
_SearchForMergeBlocker _FindK33WithMergeBlocker _TestForZtoWPath _ReduceBicomp _K33Search_DeleteUnmarkedEdgesInBicomp
_ReduceExternalFacePathToEdge _ReduceXYPathToEdge _RestoreReducedPath _RestoreAndOrientReducedPaths _MarkStraddlingBridgePath
_IsolateMinorE5 _IsolateMinorE6 _IsolateMinorE7 gp_AttachK33Search gp_DetachK33Search _K33Search_CreateStructures
_K33Search_InitStructures _K33Search_InitGraph _K33Search_EnsureArcCapacity _K33Search_EmbeddingInitialize _K33Search_MergeBicomps
_K33Search_HandleBlockedBicomp _K33Search_EmbedPostprocess _K33Search_CheckEmbeddingIntegrity _K33Search_CheckObstructionIntegrity
_SearchForK4InBicomp _K4_ChooseTypeOfNonOuterplanarityMinor _K4_FindPlanarityActiveVertex _K4_IsolateMinorA1 _K4_IsolateMinorA2
_K4_IsolateMinorB1 _K4_IsolateMinorB2 _K4_ReduceBicompToEdge _K4_ReducePathComponent _K4_DeleteUnmarkedEdgesInBicomp
_K4_DeleteUnmarkedEdgesInPathComponent _K4_ReducePathToEdge _K4_RestoreReducedPath
_K4_RestoreAndOrientReducedPaths gp_AttachK4Search gp_DetachK4Search _K4Search_CreateStructures _K4Search_InitStructures
_K4Search_InitGraph _K4Search_EnsureArcCapacity _K4Search_HandleBlockedBicomp _K4Search_EmbedPostprocess
_K4Search_CheckEmbeddingIntegrity _K4Search_CheckObstructionIntegrity allocateG6ReadIterator getNumGraphsRead
getOrderOfGraphToRead getPointerToGraphReadIn beginG6ReadIterationFromG6FilePath beginG6ReadIterationFromG6FilePointer
beginG6ReadIterationFromG6String _beginG6ReadIteration _processAndCheckHeader _getGraphOrder readGraphUsingG6ReadIterator
_checkGraphOrder _validateGraphEncoding _decodeGraph endG6ReadIteration freeG6ReadIterator _ReadGraphFromG6FilePath
_ReadGraphFromG6FilePointer _ReadGraphFromG6String allocateG6WriteIterator getNumGraphsWritten getOrderOfGraphToWrite
getPointerToGraphToWrite getGraphBuff beginG6WriteIterationToG6FilePath beginG6WriteIterationToG6FilePointer
beginG6WriteIterationToG6String _beginG6WriteIteration writeGraphUsingG6WriteIterator _encodeAdjMatAsG6 _getFirstEdge
_getNextEdge _getNextInUseEdge _printEncodedGraph endG6WriteIteration freeG6WriteIterator _WriteGraphToG6FilePath
_WriteGraphToG6FilePointer _WriteGraphToG6String _ReadAdjMatrix _ReadAdjList _ReadLEDAGraph gp_Read gp_ReadFromString
_ReadPostprocess _DrawPlanar_ReadPostprocess _DrawPlanar_WritePostprocess _WriteAdjList _WriteAdjMatrix _WriteDebugInfo gp_Write
gp_WriteToString _WritePostprocess sf_closeFile sb_Copy sb_ConcatString sb_ConcatChar sp_CopyContent sp_Copy
_ComputeVisibilityRepresentation _ComputeVertexPositions _ComputeVertexPositionsInComponent _ComputeEdgePositions
_ComputeVertexRanges _ComputeEdgeRanges _BreakTie gp_DrawPlanar_RenderToString gp_DrawPlanar_RenderToFile
_CheckVisibilityRepresentationIntegrity gp_AttachDrawPlanar gp_DetachDrawPlanar _DrawPlanar_CreateStructures
_DrawPlanar_InitStructures _DrawPlanar_InitGraph _DrawPlanar_EnsureArcCapacity _DrawPlanar_SortVertices _DrawPlanar_MergeBicomps
_DrawPlanar_HandleInactiveVertex _DrawPlanar_EmbedPostprocess _DrawPlanar_CheckEmbeddingIntegrity
_DrawPlanar_CheckObstructionIntegrity gp_Embed _EmbeddingInitialize _MergeBicomps
_WalkDown _HandleBlockedBicomp _HandleInactiveVertex _EmbedPostprocess _OrientVerticesInEmbedding _OrientVerticesInBicomp
_JoinBicomps _OrientExternalFacePath _IsolateKuratowskiSubgraph _InitializeIsolatorContext _IsolateMinorA _IsolateMinorB
_IsolateMinorC _IsolateMinorD _IsolateMinorE _IsolateMinorE1 _IsolateMinorE2 _IsolateMinorE3 _IsolateMinorE4
_MarkPathAlongBicompExtFace _MarkDFSPath _MarkDFSPathsToDescendants _AddAndMarkUnembeddedEdges _AddAndMarkEdge
_DeleteUnmarkedVerticesAndEdges _ChooseTypeOfNonplanarityMinor _InitializeNonplanarityContext _SetVertexTypesForMarkingXYPath
_PopAndUnmarkVerticesAndEdges _MarkClosestXYPath _MarkHighestXYPath _MarkLowestXYPath _MarkZtoRPath
_ChooseTypeOfNonOuterplanarityMinor _IsolateOuterplanarObstruction _IsolateOuterplanarityObstructionA
_IsolateOuterplanarityObstructionB _IsolateOuterplanarityObstructionE gp_TestEmbedResultIntegrity _CheckEmbeddingIntegrity
_CheckEmbeddingFacialIntegrity _CheckAllVerticesOnExternalFace _CheckObstructionIntegrity _getImageVertices
_CheckKuratowskiSubgraphIntegrity _CheckOuterplanarObstructionIntegrity _TestSubgraph
RandomGraphs RandomGraph SpecificGraph TestAllGraphs testAllGraphs outputTestAllGraphsResults
TransformGraph transformFile transformString ConstructTransformationExpectedResultFilename
callRandomGraphs callSpecificGraph callRandomMaxPlanarGraph callRandomNonplanarGraph callTransformGraph callTestAllGraphs
runQuickRegressionTests AttachAlgorithm
'''.split())

# report failure by a negative value (0 = success): application command drivers
NEG1 = {'runSpecificGraphTests', 'runSpecificGraphTest', 'runGraphTransformationTest', 'commandLine', 'legacyCommandLine', 'main'}

EOFFAIL = {'sf_fputs', 'fclose', 'fputs', 'fputc'}


def fail_value(name):
    if name in PTR_FAIL or name in STATUS:
        return 0
    if name in ('runSpecificGraphTests', 'runSpecificGraphTest', 'runGraphTransformationTest'):
        return -1
    if name in EOFFAIL:
        return -1
    return None
