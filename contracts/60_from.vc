## Conversions whose specification is otherwise read off their own one-expression body; used when the body has another form.

== fromweak requester::RequesterSession@From<RequesterInit<'a,S>> (state)
    RequesterSession { _data: state.data }

== fromweak requester::AllStates@From<version::State> (state)
    AllStates::Version(state)

== fromweak requester::AllStates@From<capabilities::State> (state)
    AllStates::Capabilities(state)

== fromweak requester::AllStates@From<algorithms::State> (state)
    AllStates::Algorithms(state)

== fromweak requester::AllStates@From<id_auth::State> (state)
    AllStates::IdAuth(state)

== fromweak requester::AllStates@From<challenge::State> (state)
    AllStates::Challenge(state)

== fromweak requester::challenge::ChallengeAuthError@From<ParseChallengeAuthError> (e)
    ChallengeAuthError::ParseChallengeAuth(e)

== fromweak requester::challenge::ChallengeAuthError@From<pki::Error> (e)
    ChallengeAuthError::Pki(e)

== fromweak requester::error::RequesterError@From<BufferFullError> (_p0)
    RequesterError::BufferFull

== fromweak requester::error::RequesterError@From<ReadError> (e)
    RequesterError::Read(e)

== fromweak requester::error::RequesterError@From<pki::Error> (_p0)
    RequesterError::InvalidCert

== fromweak requester::error::RequesterError@From<ParseCertificateError> (e)
    RequesterError::ParseCert(e)

== fromweak requester::error::RequesterError@From<ParseAlgorithmsError> (e)
    RequesterError::ParseAlgorithms(e)

== fromweak requester::error::RequesterError@From<ParseBaseAsymAlgoError> (_p0)
    RequesterError::ParseBaseAsymAlgo

== fromweak requester::error::RequesterError@From<ParseBaseHashAlgoError> (_p0)
    RequesterError::ParseBaseHashAlgo

== fromweak requester::error::RequesterError@From<ParseCapabilitiesError> (_p0)
    RequesterError::ParseCapabilities

== fromweak requester::error::RequesterError@From<ParseReqCapabilityError> (_p0)
    RequesterError::ParseCapability

== fromweak requester::error::RequesterError@From<ParseChallengeAuthError> (e)
    RequesterError::ParseChallengeAuth(e)

== fromweak requester::error::RequesterError@From<ParseHeaderError> (_p0)
    RequesterError::ParseHeader

== fromweak requester::error::RequesterError@From<ParseVersionError> (e)
    RequesterError::ParseVersion(e)

== fromweak requester::error::RequesterError@From<ParseCertificateChainError> (e)
    RequesterError::ParseCertChain(e)

== fromweak requester::error::RequesterError@From<ChallengeAuthError> (e)
    RequesterError::ChallengeAuth(e)

== fromweak responder::AllStates@From<version::State> (state)
    AllStates::Version(state)

== fromweak responder::AllStates@From<capabilities::State> (state)
    AllStates::Capabilities(state)

== fromweak responder::AllStates@From<algorithms::State> (state)
    AllStates::Algorithms(state)

== fromweak responder::AllStates@From<id_auth::State> (state)
    AllStates::IdAuth(state)

== fromweak responder::AllStates@From<challenge::State> (state)
    AllStates::Challenge(state)

== fromweak responder::challenge::State@From<id_auth::State> (s)
    State {
            requester_ct_exponent: s.requester_ct_exponent,
            requester_cap: s.requester_cap,
            responder_ct_exponent: s.responder_ct_exponent,
            responder_cap: s.responder_cap,
            algorithms: s.algorithms,
        }

== fromweak responder::error::ResponderError@From<BufferFullError> (_p0)
    ResponderError::BufferFull

== fromweak responder::error::ResponderError@From<ReadError> (e)
    ResponderError::Read(e)

== fromweak responder::error::ResponderError@From<WriteCertificateChainError> (e)
    ResponderError::WriteCertChain(e)

== fromweak responder::error::ResponderError@From<ParseHeaderError> (_p0)
    ResponderError::ParseHeader

== fromweak responder::error::ResponderError@From<ParseGetCapabilitiesError> (e)
    ResponderError::ParseGetCapabilities(e)

== fromweak responder::error::ResponderError@From<ParseNegotiateAlgorithmsError> (e)
    ResponderError::ParseNegotiateAlgorithms(e)

== fromweak responder::error::ResponderError@From<ParseBaseAsymAlgoError> (_p0)
    ResponderError::ParseBaseAsymAlgo

== fromweak responder::error::ResponderError@From<ParseRspCapabilityError> (_p0)
    ResponderError::ParseCapability

== fromweak responder::error::ResponderError@From<ParseChallengeError> (e)
    ResponderError::ParseChallenge(e)

== fromweak responder::error::ResponderError@From<WriteChallengeAuthError> (e)
    ResponderError::WriteChallengeAuth(e)

== fromweak msgs::algorithms::ParseAlgorithmRequestError@From<ReadError> (e)
    ParseAlgorithmRequestError::Read(e)

== fromweak msgs::algorithms::ParseNegotiateAlgorithmsError@From<ReadError> (e)
    ParseNegotiateAlgorithmsError::Read(e)

== fromweak msgs::algorithms::ParseNegotiateAlgorithmsError@From<ParseAlgorithmRequestError> (e)
    ParseNegotiateAlgorithmsError::AlgorithmRequest(e)

== fromweak msgs::algorithms::ParseAlgorithmsError@From<ReadError> (e)
    ParseAlgorithmsError::Read(e)

== fromweak msgs::algorithms::ParseAlgorithmsError@From<ParseAlgorithmResponseError> (e)
    ParseAlgorithmsError::AlgorithmsResponse(e)

== fromweak msgs::algorithms::ParseAlgorithmsError@From<ParseAlgorithmRequestError> (e)
    ParseAlgorithmsError::AlgorithmsRequest(e)

== fromweak msgs::capabilities::ParseGetCapabilitiesError@From<ReadError> (e)
    ParseGetCapabilitiesError::Read(e)

== fromweak msgs::capabilities::ParseCapabilitiesError@From<ReadError> (e)
    ParseCapabilitiesError::Read(e)

== fromweak msgs::certificates::ParseCertificateError@From<ReadError> (e)
    ParseCertificateError::Read(e)

== fromweak msgs::certificates::WriteCertificateChainError@From<BufferFullError> (_p0)
    WriteCertificateChainError::BufferFull

== fromweak msgs::certificates::ParseCertificateChainError@From<ReadError> (e)
    ParseCertificateChainError::Read(e)

== fromweak msgs::challenge::ParseChallengeError@From<ReadError> (e)
    ParseChallengeError::Read(e)

== fromweak msgs::challenge::ParseChallengeError@From<ParseMeasurementHashTypeError> (_p0)
    ParseChallengeError::InvalidMeasurementHashType

== fromweak msgs::challenge::WriteChallengeAuthError@From<BufferFullError> (_p0)
    WriteChallengeAuthError::BufferFull

== fromweak msgs::challenge::WriteChallengeAuthError@From<WriteOpaqueElementError> (e)
    WriteChallengeAuthError::WriteOpaqueElement(e)

== fromweak msgs::challenge::ParseChallengeAuthError@From<ReadError> (e)
    ParseChallengeAuthError::Read(e)

== fromweak msgs::challenge::ParseChallengeAuthError@From<ParseOpaqueDataError> (e)
    ParseChallengeAuthError::ParseOpaqueData(e)

== fromweak msgs::common::ParseOpaqueDataError@From<ReadError> (e)
    ParseOpaqueDataError::Read(e)

== fromweak msgs::common::ParseOpaqueDataError@From<ParseOpaqueElementError> (e)
    ParseOpaqueDataError::ParseOpaqueElement(e)

== fromweak msgs::common::WriteOpaqueElementError@From<BufferFullError> (_p0)
    WriteOpaqueElementError::BufferFull

== fromweak msgs::common::ParseOpaqueElementError@From<ReadError> (e)
    ParseOpaqueElementError::Read(e)

== fromweak msgs::common::ParseOpaqueElementError@From<ParseVendorIdError> (e)
    ParseOpaqueElementError::ParseVendorId(e)

== fromweak msgs::common::ParseOpaqueElementError@From<ParseVendorRegistryIdError> (_p0)
    ParseOpaqueElementError::ParseVendorRegistryId

== fromweak msgs::common::ParseVendorIdError@From<ReadError> (e)
    ParseVendorIdError::Read(e)

== fromweak msgs::error::ParseErrorError@From<ReadError> (e)
    ParseErrorError::Read(e)

== fromweak msgs::error::ParseErrorError@From<ParseVendorIdError> (e)
    ParseErrorError::ParseVendorId(e)

== fromweak msgs::error::ParseErrorError@From<ParseVendorRegistryIdError> (_p0)
    ParseErrorError::ParseVendorRegistryId

== fromweak msgs::measurements::WriteGetMeasurementsError@From<BufferFullError> (_p0)
    WriteGetMeasurementsError::BufferFull

== fromweak msgs::measurements::WriteGetMeasurementsError@From<WriteMeasurementIndexError> (e)
    WriteGetMeasurementsError::MeasurementIndex(e)

== fromweak msgs::measurements::ParseGetMeasurementsError@From<ReadError> (e)
    ParseGetMeasurementsError::Read(e)

== fromweak msgs::measurements::ParseBitStreamError@From<ReadError> (e)
    ParseBitStreamError::Read(e)

== fromweak msgs::measurements::ParseDmtfMeasurementError@From<ParseDmtfMeasurementValueTypeError> (e)
    ParseDmtfMeasurementError::Type(e)

== fromweak msgs::measurements::ParseDmtfMeasurementError@From<ParseDmtfMeasurementValueRepresentationError> (e)
    ParseDmtfMeasurementError::Representation(e)

== fromweak msgs::measurements::ParseDmtfMeasurementError@From<ReadError> (e)
    ParseDmtfMeasurementError::Read(e)

== fromweak msgs::measurements::ParseDmtfMeasurementError@From<DigestTooLargeError> (_p0)
    ParseDmtfMeasurementError::DigestTooLargeError

== fromweak msgs::measurements::ParseDmtfMeasurementError@From<ParseBitStreamError> (e)
    ParseDmtfMeasurementError::BitStream(e)

== fromweak msgs::measurements::ParseMeasurementBlockError@From<ReadError> (e)
    ParseMeasurementBlockError::Read(e)

== fromweak msgs::measurements::ParseMeasurementBlockError@From<ParseDmtfMeasurementError> (e)
    ParseMeasurementBlockError::Measurement(e)

== fromweak msgs::measurements::WriteMeasurementsError@From<BufferFullError> (_p0)
    WriteMeasurementsError::BufferFull

== fromweak msgs::measurements::WriteMeasurementsError@From<WriteOpaqueElementError> (e)
    WriteMeasurementsError::WriteOpaqueElement(e)

== fromweak msgs::measurements::ParseMeasurementBlocksError@From<ParseMeasurementBlockError> (e)
    ParseMeasurementBlocksError::Block(e)

== fromweak msgs::measurements::ParseMeasurementBlocksError@From<ReadError> (e)
    ParseMeasurementBlocksError::Read(e)

== fromweak msgs::measurements::ParseMeasurementsError@From<ReadError> (e)
    ParseMeasurementsError::Read(e)

== fromweak msgs::measurements::ParseMeasurementsError@From<ParseMeasurementBlocksError> (e)
    ParseMeasurementsError::Blocks(e)

== fromweak msgs::measurements::ParseMeasurementsError@From<ParseContentChangedError> (e)
    ParseMeasurementsError::ContentChanged(e)

== fromweak msgs::measurements::ParseMeasurementsError@From<ParseOpaqueDataError> (e)
    ParseMeasurementsError::Opaque(e)

== fromweak msgs::version::ParseVersionError@From<ReadError> (e)
    ParseVersionError::Read(e)
