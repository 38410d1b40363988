// A recorder for every published event of the interface.
void PublishEligibilityEvalCheckin() override { Put("PublishEligibilityEvalCheckin"); }
void PublishEligibilityEvalPlanUriReceived(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalPlanUriReceived", network_stats, phase_duration); }
void PublishEligibilityEvalPlanReceived(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalPlanReceived", network_stats, phase_duration); }
void PublishEligibilityEvalNotConfigured(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalNotConfigured", network_stats, phase_duration); }
void PublishEligibilityEvalRejected(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalRejected", network_stats, phase_duration); }
void PublishCheckin() override { Put("PublishCheckin"); }
void PublishCheckinFinished(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishCheckinFinished", network_stats, phase_duration); }
void PublishRejected() override { Put("PublishRejected"); }
void PublishTensorFlowError(int example_count, absl::string_view error_message) override { Put("PublishTensorFlowError", example_count, error_message); }
void PublishIoError(absl::string_view error_message) override { Put("PublishIoError", error_message); }
void PublishExampleSelectorError(int example_count, absl::string_view error_message) override { Put("PublishExampleSelectorError", example_count, error_message); }
void PublishInterruption(const ExampleStats& example_stats, absl::Time start_time) override { Put("PublishInterruption", example_stats, start_time); }
void PublishTaskNotStarted(absl::string_view error_message) override { Put("PublishTaskNotStarted", error_message); }
void PublishNonfatalInitializationError(absl::string_view error_message) override { Put("PublishNonfatalInitializationError", error_message); }
void PublishFatalInitializationError(absl::string_view error_message) override { Put("PublishFatalInitializationError", error_message); }
void PublishEligibilityEvalCheckinIoError(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalCheckinIoError", error_message, network_stats, phase_duration); }
void PublishEligibilityEvalCheckinClientInterrupted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalCheckinClientInterrupted", error_message, network_stats, phase_duration); }
void PublishEligibilityEvalCheckinServerAborted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalCheckinServerAborted", error_message, network_stats, phase_duration); }
void PublishEligibilityEvalCheckinErrorInvalidPayload(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalCheckinErrorInvalidPayload", error_message, network_stats, phase_duration); }
void PublishEligibilityEvalComputationStarted() override { Put("PublishEligibilityEvalComputationStarted"); }
void PublishEligibilityEvalComputationInvalidArgument(absl::string_view error_message, const ExampleStats& example_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalComputationInvalidArgument", error_message, example_stats, phase_duration); }
void PublishEligibilityEvalComputationIOError(absl::string_view error_message, const ::fcp::client::ExampleStats& example_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalComputationIOError", error_message, example_stats, phase_duration); }
void PublishEligibilityEvalComputationExampleIteratorError(absl::string_view error_message, const ExampleStats& example_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalComputationExampleIteratorError", error_message, example_stats, phase_duration); }
void PublishEligibilityEvalComputationTensorflowError(absl::string_view error_message, const ExampleStats& example_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalComputationTensorflowError", error_message, example_stats, phase_duration); }
void PublishEligibilityEvalComputationInterrupted(absl::string_view error_message, const ExampleStats& example_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalComputationInterrupted", error_message, example_stats, phase_duration); }
void PublishEligibilityEvalComputationErrorNonfatal(absl::string_view error_message) override { Put("PublishEligibilityEvalComputationErrorNonfatal", error_message); }
void PublishEligibilityEvalComputationCompleted(const ExampleStats& example_stats, absl::Duration phase_duration) override { Put("PublishEligibilityEvalComputationCompleted", example_stats, phase_duration); }
void PublishMultipleTaskAssignmentsStarted() override { Put("PublishMultipleTaskAssignmentsStarted"); }
void PublishMultipleTaskAssignmentsIOError(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishMultipleTaskAssignmentsIOError", error_message, network_stats, phase_duration); }
void PublishMultipleTaskAssignmentsPayloadIOError(absl::string_view error_message) override { Put("PublishMultipleTaskAssignmentsPayloadIOError", error_message); }
void PublishMultipleTaskAssignmentsInvalidPayload(absl::string_view error_message) override { Put("PublishMultipleTaskAssignmentsInvalidPayload", error_message); }
void PublishMultipleTaskAssignmentsClientInterrupted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishMultipleTaskAssignmentsClientInterrupted", error_message, network_stats, phase_duration); }
void PublishMultipleTaskAssignmentsServerAborted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishMultipleTaskAssignmentsServerAborted", error_message, network_stats, phase_duration); }
void PublishMultipleTaskAssignmentsTurnedAway(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishMultipleTaskAssignmentsTurnedAway", network_stats, phase_duration); }
void PublishMultipleTaskAssignmentsPlanUriReceived(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishMultipleTaskAssignmentsPlanUriReceived", network_stats, phase_duration); }
void PublishMultipleTaskAssignmentsPlanUriPartialReceived(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishMultipleTaskAssignmentsPlanUriPartialReceived", network_stats, phase_duration); }
void PublishMultipleTaskAssignmentsPartialCompleted(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishMultipleTaskAssignmentsPartialCompleted", network_stats, phase_duration); }
void PublishMultipleTaskAssignmentsCompleted(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishMultipleTaskAssignmentsCompleted", network_stats, phase_duration); }
void PublishCheckinIoError(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishCheckinIoError", error_message, network_stats, phase_duration); }
void PublishCheckinClientInterrupted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishCheckinClientInterrupted", error_message, network_stats, phase_duration); }
void PublishCheckinServerAborted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishCheckinServerAborted", error_message, network_stats, phase_duration); }
void PublishCheckinInvalidPayload(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishCheckinInvalidPayload", error_message, network_stats, phase_duration); }
void PublishRejected(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishRejected", network_stats, phase_duration); }
void PublishCheckinPlanUriReceived(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishCheckinPlanUriReceived", network_stats, phase_duration); }
void PublishCheckinFinishedV2(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishCheckinFinishedV2", network_stats, phase_duration); }
void PublishComputationStarted() override { Put("PublishComputationStarted"); }
void PublishComputationInvalidArgument(absl::string_view error_message, const ExampleStats& example_stats, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishComputationInvalidArgument", error_message, example_stats, network_stats, phase_duration); }
void PublishComputationIOError(absl::string_view error_message, const ExampleStats& example_stats, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishComputationIOError", error_message, example_stats, network_stats, phase_duration); }
void PublishComputationExampleIteratorError(absl::string_view error_message, const ExampleStats& example_stats, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishComputationExampleIteratorError", error_message, example_stats, network_stats, phase_duration); }
void PublishComputationTensorflowError(absl::string_view error_message, const ExampleStats& example_stats, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishComputationTensorflowError", error_message, example_stats, network_stats, phase_duration); }
void PublishComputationInterrupted(absl::string_view error_message, const ExampleStats& example_stats, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishComputationInterrupted", error_message, example_stats, network_stats, phase_duration); }
void PublishComputationCompleted(const ExampleStats& example_stats, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishComputationCompleted", example_stats, network_stats, phase_duration); }
void PublishResultUploadStarted() override { Put("PublishResultUploadStarted"); }
void PublishResultUploadIOError(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishResultUploadIOError", error_message, network_stats, phase_duration); }
void PublishResultUploadClientInterrupted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishResultUploadClientInterrupted", error_message, network_stats, phase_duration); }
void PublishResultUploadServerAborted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishResultUploadServerAborted", error_message, network_stats, phase_duration); }
void PublishResultUploadCompleted(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishResultUploadCompleted", network_stats, phase_duration); }
void PublishFailureUploadStarted() override { Put("PublishFailureUploadStarted"); }
void PublishFailureUploadIOError(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishFailureUploadIOError", error_message, network_stats, phase_duration); }
void PublishFailureUploadClientInterrupted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishFailureUploadClientInterrupted", error_message, network_stats, phase_duration); }
void PublishFailureUploadServerAborted(absl::string_view error_message, const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishFailureUploadServerAborted", error_message, network_stats, phase_duration); }
void PublishFailureUploadCompleted(const NetworkStats& network_stats, absl::Duration phase_duration) override { Put("PublishFailureUploadCompleted", network_stats, phase_duration); }
