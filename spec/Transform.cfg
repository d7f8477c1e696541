SPECIFICATION MSpec
INVARIANTS WhiteIsProjector WhiteForgetsMixing PcaForgetsRotation FrameOrder
