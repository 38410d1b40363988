// One line per outcome: method, published event, recorded event kind (UNSPECIFIED: none), phase started (UNSPECIFIED: none), phase ended, latency figures (UNSPECIFIED: none), example figures logged
// Read by C28.py and C28_harness.cc.
OUTCOME(LogTaskNotStarted, PublishTaskNotStarted, EVENT_KIND_TRAIN_NOT_STARTED, UNSPECIFIED, 0, None, 0)
OUTCOME(LogNonfatalInitializationError, PublishNonfatalInitializationError, EVENT_KIND_INITIALIZATION_ERROR_NONFATAL, UNSPECIFIED, 0, None, 0)
OUTCOME(LogFatalInitializationError, PublishFatalInitializationError, EVENT_KIND_INITIALIZATION_ERROR_FATAL, UNSPECIFIED, 0, None, 0)
OUTCOME(LogEligibilityEvalCheckinStarted, PublishEligibilityEvalCheckin, EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED, ELIGIBILITY_EVAL_CHECKIN, 0, None, 0)
OUTCOME(LogEligibilityEvalCheckinIOError, PublishEligibilityEvalCheckinIoError, EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_IO, UNSPECIFIED, 1, EligibilityEvalCheckin, 0)
OUTCOME(LogEligibilityEvalCheckinClientInterrupted, PublishEligibilityEvalCheckinClientInterrupted, EVENT_KIND_ELIGIBILITY_CHECKIN_CLIENT_INTERRUPTED, UNSPECIFIED, 1, EligibilityEvalCheckin, 0)
OUTCOME(LogEligibilityEvalCheckinServerAborted, PublishEligibilityEvalCheckinServerAborted, EVENT_KIND_ELIGIBILITY_CHECKIN_SERVER_ABORTED, UNSPECIFIED, 1, EligibilityEvalCheckin, 0)
OUTCOME(LogEligibilityEvalNotConfigured, PublishEligibilityEvalNotConfigured, EVENT_KIND_ELIGIBILITY_DISABLED, UNSPECIFIED, 1, EligibilityEvalCheckin, 0)
OUTCOME(LogEligibilityEvalCheckinTurnedAway, PublishEligibilityEvalRejected, EVENT_KIND_ELIGIBILITY_REJECTED, UNSPECIFIED, 1, EligibilityEvalCheckin, 0)
OUTCOME(LogEligibilityEvalCheckinInvalidPayloadError, PublishEligibilityEvalCheckinErrorInvalidPayload, EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_INVALID_PAYLOAD, UNSPECIFIED, 1, EligibilityEvalCheckin, 0)
OUTCOME(LogEligibilityEvalCheckinPlanUriReceived, PublishEligibilityEvalPlanUriReceived, EVENT_KIND_ELIGIBILITY_PLAN_URI_RECEIVED, UNSPECIFIED, 0, None, 0)
OUTCOME(LogEligibilityEvalCheckinCompleted, PublishEligibilityEvalPlanReceived, EVENT_KIND_ELIGIBILITY_ENABLED, UNSPECIFIED, 1, EligibilityEvalCheckin, 0)
OUTCOME(LogEligibilityEvalComputationStarted, PublishEligibilityEvalComputationStarted, EVENT_KIND_ELIGIBILITY_COMPUTATION_STARTED, ELIGIBILITY_COMPUTATION, 0, None, 0)
OUTCOME(LogEligibilityEvalComputationInvalidArgument, PublishEligibilityEvalComputationInvalidArgument, EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_INVALID_ARGUMENT, UNSPECIFIED, 1, None, 0)
OUTCOME(LogEligibilityEvalComputationExampleIteratorError, PublishEligibilityEvalComputationExampleIteratorError, EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_EXAMPLE_ITERATOR, UNSPECIFIED, 1, None, 0)
OUTCOME(LogEligibilityEvalComputationTensorflowError, PublishEligibilityEvalComputationTensorflowError, EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_TENSORFLOW, UNSPECIFIED, 1, EligibilityEvalComputation, 0)
OUTCOME(LogEligibilityEvalComputationIOError, PublishEligibilityEvalComputationIOError, EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_IO, UNSPECIFIED, 1, EligibilityEvalComputation, 0)
OUTCOME(LogEligibilityEvalComputationInterrupted, PublishEligibilityEvalComputationInterrupted, EVENT_KIND_ELIGIBILITY_COMPUTATION_CLIENT_INTERRUPTED, UNSPECIFIED, 1, EligibilityEvalComputation, 0)
OUTCOME(LogEligibilityEvalComputationErrorNonfatal, PublishEligibilityEvalComputationErrorNonfatal, EVENT_KIND_UNSPECIFIED, UNSPECIFIED, 0, None, 0)
OUTCOME(LogEligibilityEvalComputationCompleted, PublishEligibilityEvalComputationCompleted, EVENT_KIND_ELIGIBILITY_COMPUTATION_FINISHED, UNSPECIFIED, 1, EligibilityEvalComputation, 1)
OUTCOME(LogMultipleTaskAssignmentsStarted, PublishMultipleTaskAssignmentsStarted, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_STARTED, MULTIPLE_TASK_ASSIGNMENTS, 0, None, 0)
OUTCOME(LogMultipleTaskAssignmentsIOError, PublishMultipleTaskAssignmentsIOError, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_IO, UNSPECIFIED, 1, MultipleTaskAssignments, 0)
OUTCOME(LogMultipleTaskAssignmentsPayloadIOError, PublishMultipleTaskAssignmentsPayloadIOError, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_PAYLOAD_IO, UNSPECIFIED, 0, None, 0)
OUTCOME(LogMultipleTaskAssignmentsInvalidPayload, PublishMultipleTaskAssignmentsInvalidPayload, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_INVALID_PAYLOAD, UNSPECIFIED, 0, None, 0)
OUTCOME(LogMultipleTaskAssignmentsClientInterrupted, PublishMultipleTaskAssignmentsClientInterrupted, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_CLIENT_INTERRUPTED, UNSPECIFIED, 1, MultipleTaskAssignments, 0)
OUTCOME(LogMultipleTaskAssignmentsServerAborted, PublishMultipleTaskAssignmentsServerAborted, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_SERVER_ABORTED, UNSPECIFIED, 1, MultipleTaskAssignments, 0)
OUTCOME(LogMultipleTaskAssignmentsTurnedAway, PublishMultipleTaskAssignmentsTurnedAway, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_REJECTED, UNSPECIFIED, 1, MultipleTaskAssignments, 0)
OUTCOME(LogMultipleTaskAssignmentsPlanUriReceived, PublishMultipleTaskAssignmentsPlanUriReceived, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_RECEIVED, UNSPECIFIED, 0, None, 0)
OUTCOME(LogMultipleTaskAssignmentsPlanUriPartialReceived, PublishMultipleTaskAssignmentsPlanUriPartialReceived, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_PARTIAL_RECEIVED, UNSPECIFIED, 0, None, 0)
OUTCOME(LogMultipleTaskAssignmentsPartialCompleted, PublishMultipleTaskAssignmentsPartialCompleted, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PARTIAL_COMPLETED, UNSPECIFIED, 1, MultipleTaskAssignments, 0)
OUTCOME(LogMultipleTaskAssignmentsCompleted, PublishMultipleTaskAssignmentsCompleted, EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_COMPLETED, UNSPECIFIED, 1, MultipleTaskAssignments, 0)
OUTCOME(LogCheckinStarted, PublishCheckin, EVENT_KIND_CHECKIN_STARTED, CHECKIN, 0, None, 0)
OUTCOME(LogCheckinIOError, PublishCheckinIoError, EVENT_KIND_CHECKIN_ERROR_IO, UNSPECIFIED, 1, Checkin, 0)
OUTCOME(LogCheckinClientInterrupted, PublishCheckinClientInterrupted, EVENT_KIND_CHECKIN_CLIENT_INTERRUPTED, UNSPECIFIED, 1, Checkin, 0)
OUTCOME(LogCheckinServerAborted, PublishCheckinServerAborted, EVENT_KIND_CHECKIN_SERVER_ABORTED, UNSPECIFIED, 1, Checkin, 0)
OUTCOME(LogCheckinTurnedAway, PublishRejected, EVENT_KIND_CHECKIN_REJECTED, UNSPECIFIED, 1, Checkin, 0)
OUTCOME(LogCheckinInvalidPayload, PublishCheckinInvalidPayload, EVENT_KIND_CHECKIN_ERROR_INVALID_PAYLOAD, UNSPECIFIED, 1, Checkin, 0)
OUTCOME(LogCheckinPlanUriReceived, PublishCheckinPlanUriReceived, EVENT_KIND_CHECKIN_PLAN_URI_RECEIVED, UNSPECIFIED, 0, None, 0)
OUTCOME(LogCheckinCompleted, PublishCheckinFinishedV2, EVENT_KIND_CHECKIN_ACCEPTED, UNSPECIFIED, 1, Checkin, 0)
OUTCOME(LogComputationStarted, PublishComputationStarted, EVENT_KIND_COMPUTATION_STARTED, COMPUTATION, 0, None, 0)
OUTCOME(LogComputationInvalidArgument, PublishComputationInvalidArgument, EVENT_KIND_COMPUTATION_ERROR_INVALID_ARGUMENT, UNSPECIFIED, 1, None, 0)
OUTCOME(LogComputationIOError, PublishComputationIOError, EVENT_KIND_COMPUTATION_ERROR_IO, UNSPECIFIED, 1, None, 0)
OUTCOME(LogComputationExampleIteratorError, PublishComputationExampleIteratorError, EVENT_KIND_COMPUTATION_ERROR_EXAMPLE_ITERATOR, UNSPECIFIED, 1, None, 0)
OUTCOME(LogComputationTensorflowError, PublishComputationTensorflowError, EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW, UNSPECIFIED, 1, Computation, 0)
OUTCOME(LogComputationInterrupted, PublishComputationInterrupted, EVENT_KIND_COMPUTATION_CLIENT_INTERRUPTED, UNSPECIFIED, 1, Computation, 0)
OUTCOME(LogComputationCompleted, PublishComputationCompleted, EVENT_KIND_COMPUTATION_FINISHED, UNSPECIFIED, 1, Computation, 1)
OUTCOME(LogResultUploadStarted, PublishResultUploadStarted, EVENT_KIND_RESULT_UPLOAD_STARTED, UPLOAD, 0, None, 0)
OUTCOME(LogResultUploadIOError, PublishResultUploadIOError, EVENT_KIND_RESULT_UPLOAD_ERROR_IO, UNSPECIFIED, 1, Report, 0)
OUTCOME(LogResultUploadClientInterrupted, PublishResultUploadClientInterrupted, EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED, UNSPECIFIED, 1, Report, 0)
OUTCOME(LogResultUploadServerAborted, PublishResultUploadServerAborted, EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED, UNSPECIFIED, 1, Report, 0)
OUTCOME(LogResultUploadCompleted, PublishResultUploadCompleted, EVENT_KIND_RESULT_UPLOAD_FINISHED, UNSPECIFIED, 1, Report, 0)
OUTCOME(LogFailureUploadStarted, PublishFailureUploadStarted, EVENT_KIND_FAILURE_UPLOAD_STARTED, UPLOAD, 0, None, 0)
OUTCOME(LogFailureUploadIOError, PublishFailureUploadIOError, EVENT_KIND_FAILURE_UPLOAD_ERROR_IO, UNSPECIFIED, 1, Report, 0)
OUTCOME(LogFailureUploadClientInterrupted, PublishFailureUploadClientInterrupted, EVENT_KIND_FAILURE_UPLOAD_CLIENT_INTERRUPTED, UNSPECIFIED, 1, Report, 0)
OUTCOME(LogFailureUploadServerAborted, PublishFailureUploadServerAborted, EVENT_KIND_FAILURE_UPLOAD_SERVER_ABORTED, UNSPECIFIED, 1, Report, 0)
OUTCOME(LogFailureUploadCompleted, PublishFailureUploadCompleted, EVENT_KIND_FAILURE_UPLOAD_FINISHED, UNSPECIFIED, 1, Report, 0)
