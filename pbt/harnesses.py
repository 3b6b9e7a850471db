"""Which sources each harness binary is built from (repo-relative, or @H/ for /verif/harness)."""
EXTRA_FLAGS = {
    "@H/vos_vos_erkin.cpp": ["-ffunction-sections", "-fdata-sections"],
    # Names MLIR 20 has not: a type it calls OpaqueProperties, and a switch it does not need.
    "lib/Dialect/RNS/IR/RNSOps.cpp": ["-DPropertyRef=OpaqueProperties"],
    "lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp": ["-DallowPatternRollback=buildMaterializations=true;bool vt_unused"],
    "lib/Dialect/Secret/Transforms/ForgetSecrets.cpp": ["-DallowPatternRollback=buildMaterializations=true;bool vt_unused"],
    "lib/Pipelines/PipelineRegistration.cpp": ["-ffunction-sections", "-DcreateConvertBufferizationToMemRefPass=createBufferizationToMemRefPass",
                                              "-DcreateSCFToControlFlowPass=createConvertSCFToCFPass", "-DOneShotBufferizePassOptions=OneShotBufferizationOptions"],
}
HARNESSES = {
    "kernels": ["@H/kernels.cpp", "lib/Kernel/RotationCountVisitor.cpp", "lib/Kernel/EvalVisitor.cpp",
                "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp", "lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp"],
    "math": ["@H/math.cpp", "lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp", "lib/Utils/LogArithmetic.cpp",
             "lib/Utils/Polynomial/NTT.cpp", "lib/Utils/Polynomial/Polynomial.cpp", "lib/Utils/Polynomial/RNSPolynomial.cpp",
             "@H/attr_classes.cpp"],
    "polyeval": ["@H/polyeval.cpp", "lib/Utils/Polynomial/ChebyshevDecomposition.cpp"],
    "graph": ["@H/graph.cpp"],
    "conv": ["@H/conv.cpp", "lib/Utils/Layout/Convolution.cpp", "lib/Utils/Layout/Utils.cpp", "lib/Utils/Layout/IslConversion.cpp",
             "lib/Kernel/EvalVisitor.cpp", "lib/Utils/MathUtils.cpp", "lib/Utils/APIntUtils.cpp"],
    "index": ["@H/index.cpp", "lib/Utils/AffineMapUtils.cpp", "lib/Utils/TensorUtils.cpp", "lib/Utils/TargetUtils.cpp"],
    "layout": ["@H/layout.cpp", "lib/Utils/Layout/Utils.cpp", "lib/Utils/Layout/Hoisting.cpp", "lib/Utils/Layout/IslConversion.cpp",
               "lib/Utils/MathUtils.cpp", "lib/Utils/APIntUtils.cpp"],
    "passes_mem": ["@H/passes_mem.cpp", "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp",
                   "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp",
                   "lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp",
                   "lib/Transforms/FullLoopUnroll/FullLoopUnroll.cpp", "lib/Transforms/UnusedMemRef/UnusedMemRef.cpp",
                   "lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.cpp", "lib/Dialect/ModuleAttributes.cpp",
                   "lib/Utils/TensorUtils.cpp", "lib/Utils/Layout/Utils.cpp"],
    "shift": ["@H/shift.cpp", "@H/vos_vos_erkin.cpp", "lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp", "lib/Kernel/EvalVisitor.cpp",
              "lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp", "lib/Utils/Layout/Utils.cpp"],
    "noise": ["@H/noise.cpp", "lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp",
              "lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp", "lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp",
              "lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp", "lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp",
              "lib/Analysis/NoiseAnalysis/Noise.cpp", "lib/Parameters/BGV/Params.cpp", "lib/Parameters/RLWEParams.cpp", "lib/Parameters/RLWESecurityParams.cpp", "lib/Parameters/CKKS/Params.cpp", "@H/bgv_attr.cpp", "@H/ckks_attr.cpp", "lib/Dialect/CKKS/IR/CKKSAttributes.cpp", "lib/Dialect/CKKS/IR/CKKSEnums.cpp", "lib/Utils/LogArithmetic.cpp", "lib/Utils/MathUtils.cpp", "lib/Utils/APIntUtils.cpp"],
    "linalg": ["@H/linalg.cpp", "lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp", "lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp",
               "lib/Utils/TensorUtils.cpp", "lib/Utils/Layout/Utils.cpp"],
    "mlirrun": ["@main", "@H/mlirrun.cpp"],
    "emit": ["@main", "@H/emit.cpp", "lib/Target/TfheRust/TfheRustEmitter.cpp", "lib/Target/TfheRust/Utils.cpp",
             "lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp", "lib/Target/TfheRustHL/TfheRustHLEmitter.cpp", "lib/Target/Metadata/MetadataEmitter.cpp"],
    "iface": ["@main", "@H/iface.cpp"],
    "modarith": ["@H/modarith.cpp", "@H/rns_attributes.cpp", "lib/Dialect/ModArith/IR/ModArithAttributes.cpp", "lib/Dialect/ModArith/IR/ModArithTypes.cpp", "lib/Dialect/RNS/IR/RNSTypes.cpp",
                 "lib/Dialect/HEIRInterfaces.cpp", "lib/Utils/ConversionUtils.cpp", "lib/Dialect/RNS/IR/RNSOps.cpp", "lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp"],
    "oblivious": ["@H/oblivious.cpp", "lib/Dialect/Secret/IR/SecretOps.cpp", "lib/Dialect/Secret/IR/SecretPatterns.cpp", "lib/Dialect/Secret/IR/SecretDialect.cpp", "lib/Utils/AttributeUtils.cpp",
                  "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp", "lib/Pipelines/PipelineRegistration.cpp", "lib/Transforms/AnnotateSecretness/AnnotateSecretness.cpp",
                  "lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp", "lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp",
                  "lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp",
                  "lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp",
                  "lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp"],
    "rotate": ["@H/rotate.cpp", "lib/Dialect/TensorExt/IR/TensorExtOps.cpp", "lib/Dialect/TensorExt/IR/TensorExtDialect.cpp",
               "lib/Dialect/TensorExt/Transforms/InsertRotate.cpp", "lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp",
               "lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.cpp", "lib/Analysis/TargetSlotAnalysis/TargetSlotAnalysis.cpp",
               "lib/Analysis/RotationAnalysis/RotationAnalysis.cpp", "lib/Analysis/RotationAnalysis/DagBuilder.cpp", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp"],
    "generic": ["@H/generic.cpp", "lib/Dialect/Secret/IR/SecretOps.cpp", "lib/Dialect/Secret/IR/SecretPatterns.cpp", "lib/Dialect/Secret/IR/SecretDialect.cpp", "lib/Utils/AttributeUtils.cpp",
                "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp", "lib/Transforms/Secretize/Secretize.cpp", "lib/Transforms/Secretize/WrapGeneric.cpp",
                "lib/Dialect/Secret/Transforms/AddDebugPort.cpp",
                "lib/Dialect/Secret/Transforms/CaptureGenericAmbientScope.cpp",
                "lib/Dialect/Secret/Transforms/DistributeGeneric.cpp",
                "lib/Dialect/Secret/Transforms/ExtractGenericBody.cpp",
                "lib/Dialect/Secret/Transforms/ForgetSecrets.cpp",
                "lib/Dialect/Secret/Transforms/GenericAbsorbConstants.cpp",
                "lib/Dialect/Secret/Transforms/GenericAbsorbDealloc.cpp",
                "lib/Dialect/Secret/Transforms/ImportExecutionResult.cpp",
                "lib/Dialect/Secret/Transforms/MergeAdjacentGenerics.cpp", "lib/Utils/TransformUtils.cpp"],
    "approx": ["@H/approx.cpp", "@H/polynomial_attributes.cpp", "@H/polynomial_ops.cpp", "@H/polynomial_approximation.cpp", "@H/rns_attributes.cpp",
               "lib/Utils/Approximation/Chebyshev.cpp", "lib/Utils/Approximation/CaratheodoryFejer.cpp", "lib/Dialect/Polynomial/IR/PolynomialDialect.cpp",
               "lib/Transforms/LowerPolynomialEval/LowerPolynomialEval.cpp", "lib/Transforms/LowerPolynomialEval/Patterns.cpp"],
    "targets": ["@H/targets.cpp", "lib/Transforms/AnnotateModule/ApplyConfigOverride.cpp"],
}
