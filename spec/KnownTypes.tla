----------------------------- MODULE KnownTypes -----------------------------
(***************************************************************************)
(* Types a reader of CLIXML knows by name (MS-PSRP 2.2.3 and .NET), as      *)
(* tables.  Names are sequences of UTF-16 code units.                       *)
(***************************************************************************)
EXTENDS Text, TLC

CONSTANT AppTypes    \* whether the application has registered its own types


\* type names of the kinds of values, most derived first
BaseNames == [
  PSCustomObject |-> << U("System.Management.Automation.PSCustomObject"), U("System.Object") >>,
  PSObject |-> << U("System.Object") >>,
  PSList |-> << U("System.Collections.ArrayList"), U("System.Object") >>,
  PSStack |-> << U("System.Collections.Stack"), U("System.Object") >>,
  PSQueue |-> << U("System.Collections.Queue"), U("System.Object") >>,
  PSDict |-> << U("System.Collections.Hashtable"), U("System.Object") >>,
  PSIEnumerable |-> << U("System.Collections.IEnumerable"), U("System.Object") >>,
  PSPrimitiveDictionary |-> << U("System.Management.Automation.PSPrimitiveDictionary"), U("System.Collections.Hashtable"), U("System.Object") >>,
  PSEnumBase |-> << U("System.Enum"), U("System.ValueType"), U("System.Object") >> ]

\* what the container kinds without a type name of their own are read as
ContClass == [LST |-> "PSList", STK |-> "PSStack", QUE |-> "PSQueue", DCT |-> "PSDict", IE |-> "PSIEnumerable"]

\* enumerations: type name, whether its numbers combine, the element of its numbers and the numbers with their names
BaseEnums == [
  ConsoleColor |-> [tn |-> U("System.ConsoleColor"), flag |-> FALSE,
    m |-> << [n |-> U("Black"), v |-> 0], [n |-> U("DarkBlue"), v |-> 1], [n |-> U("DarkGreen"), v |-> 2], [n |-> U("DarkCyan"), v |-> 3], [n |-> U("DarkRed"), v |-> 4], [n |-> U("DarkMagenta"), v |-> 5], [n |-> U("DarkYellow"), v |-> 6], [n |-> U("Gray"), v |-> 7], [n |-> U("DarkGray"), v |-> 8], [n |-> U("Blue"), v |-> 9], [n |-> U("Green"), v |-> 10], [n |-> U("Cyan"), v |-> 11], [n |-> U("Red"), v |-> 12], [n |-> U("Magenta"), v |-> 13], [n |-> U("Yellow"), v |-> 14], [n |-> U("White"), v |-> 15] >>],
  ProgressRecordType |-> [tn |-> U("System.Management.Automation.ProgressRecordType"), flag |-> FALSE,
    m |-> << [n |-> U("Processing"), v |-> 0], [n |-> U("Completed"), v |-> 1] >>],
  PSCredentialTypes |-> [tn |-> U("System.Management.Automation.PSCredentialTypes"), flag |-> TRUE,
    m |-> << [n |-> U("Generic"), v |-> 1], [n |-> U("Domain"), v |-> 2], [n |-> U("Default"), v |-> 3] >>],
  PSCredentialUIOptions |-> [tn |-> U("System.Management.Automation.PSCredentialUIOptions"), flag |-> TRUE,
    m |-> << [n |-> U("None"), v |-> 0], [n |-> U("ValidateUserNameSyntax"), v |-> 1], [n |-> U("AlwaysPrompt"), v |-> 2], [n |-> U("ReadOnlyUsername"), v |-> 3], [n |-> U("Default"), v |-> 1] >>],
  SessionStateEntryVisibility |-> [tn |-> U("System.Management.Automation.SessionStateEntryVisibility"), flag |-> FALSE,
    m |-> << [n |-> U("Public"), v |-> 0], [n |-> U("Private"), v |-> 1] >>],
  RunspacePoolState |-> [tn |-> U("System.Management.Automation.Runspaces.RunspacePoolState"), flag |-> FALSE,
    m |-> << [n |-> U("BeforeOpen"), v |-> 0], [n |-> U("Opening"), v |-> 1], [n |-> U("Opened"), v |-> 2], [n |-> U("Closed"), v |-> 3], [n |-> U("Closing"), v |-> 4], [n |-> U("Broken"), v |-> 5], [n |-> U("Disconnecting"), v |-> 6], [n |-> U("Disconnected"), v |-> 7], [n |-> U("Connecting"), v |-> 8] >>],
  PSInvocationState |-> [tn |-> U("System.Management.Automation.PSInvocationState"), flag |-> FALSE,
    m |-> << [n |-> U("NotStarted"), v |-> 0], [n |-> U("Running"), v |-> 1], [n |-> U("Stopping"), v |-> 2], [n |-> U("Stopped"), v |-> 3], [n |-> U("Completed"), v |-> 4], [n |-> U("Failed"), v |-> 5], [n |-> U("Disconnected"), v |-> 6] >>],
  PSThreadOptions |-> [tn |-> U("System.Management.Automation.Runspaces.PSThreadOptions"), flag |-> FALSE,
    m |-> << [n |-> U("Default"), v |-> 0], [n |-> U("UseNewThread"), v |-> 1], [n |-> U("ReuseThread"), v |-> 2], [n |-> U("UseCurrentThread"), v |-> 3] >>],
  ApartmentState |-> [tn |-> U("System.Threading.ApartmentState"), flag |-> FALSE,
    m |-> << [n |-> U("STA"), v |-> 0], [n |-> U("MTA"), v |-> 1], [n |-> U("Unknown"), v |-> 2] >>],
  RemoteStreamOptions |-> [tn |-> U("System.Management.Automation.RemoteStreamOptions"), flag |-> TRUE,
    m |-> << [n |-> U("None"), v |-> 0], [n |-> U("AddInvocationInfoToErrorRecord"), v |-> 1], [n |-> U("AddInvocationInfoToWarningRecord"), v |-> 2], [n |-> U("AddInvocationInfoToDebugRecord"), v |-> 4], [n |-> U("AddInvocationInfoToVerboseRecord"), v |-> 8], [n |-> U("AddInvocationInfo"), v |-> 15] >>],
  ErrorCategory |-> [tn |-> U("System.Management.Automation.ErrorCategory"), flag |-> FALSE,
    m |-> << [n |-> U("NotSpecified"), v |-> 0], [n |-> U("OpenError"), v |-> 1], [n |-> U("CloseError"), v |-> 2], [n |-> U("DeviceError"), v |-> 3], [n |-> U("DeadlockDetected"), v |-> 4], [n |-> U("InvalidArgument"), v |-> 5], [n |-> U("InvalidData"), v |-> 6], [n |-> U("InvalidOperation"), v |-> 7], [n |-> U("InvalidResult"), v |-> 8], [n |-> U("InvalidType"), v |-> 9], [n |-> U("MetadataError"), v |-> 10], [n |-> U("NotImplemented"), v |-> 11], [n |-> U("NotInstalled"), v |-> 12], [n |-> U("ObjectNotFound"), v |-> 13], [n |-> U("OperationStopped"), v |-> 14], [n |-> U("OperationTimeout"), v |-> 15], [n |-> U("SyntaxError"), v |-> 16], [n |-> U("ParserError"), v |-> 17], [n |-> U("PermissionDenied"), v |-> 18], [n |-> U("ResourceBusy"), v |-> 19], [n |-> U("ResourceExists"), v |-> 20], [n |-> U("ResourceUnavailable"), v |-> 21], [n |-> U("ReadError"), v |-> 22], [n |-> U("WriteError"), v |-> 23], [n |-> U("FromStdErr"), v |-> 24], [n |-> U("SecurityError"), v |-> 25], [n |-> U("ProtocolError"), v |-> 26], [n |-> U("ConnectionError"), v |-> 27], [n |-> U("AuthenticationError"), v |-> 28], [n |-> U("LimitsExceeded"), v |-> 29], [n |-> U("QuotaExceeded"), v |-> 30], [n |-> U("NotEnabled"), v |-> 31] >>],
  CommandTypes |-> [tn |-> U("System.Management.Automation.CommandTypes"), flag |-> TRUE,
    m |-> << [n |-> U("Alias"), v |-> 1], [n |-> U("Function"), v |-> 2], [n |-> U("Filter"), v |-> 4], [n |-> U("Cmdlet"), v |-> 8], [n |-> U("ExternalScript"), v |-> 16], [n |-> U("Application"), v |-> 32], [n |-> U("Script"), v |-> 64], [n |-> U("Configuration"), v |-> 256], [n |-> U("All"), v |-> 383] >>],
  CommandOrigin |-> [tn |-> U("System.Management.Automation.CommandOrigin"), flag |-> FALSE,
    m |-> << [n |-> U("Runspace"), v |-> 0], [n |-> U("Internal"), v |-> 1] >>],
  PipelineResultTypes |-> [tn |-> U("System.Management.Automation.Runspaces.PipelineResultTypes"), flag |-> TRUE,
    m |-> << [n |-> U("None"), v |-> 0], [n |-> U("Output"), v |-> 1], [n |-> U("Error"), v |-> 2], [n |-> U("Warning"), v |-> 3], [n |-> U("Verbose"), v |-> 4], [n |-> U("Debug"), v |-> 5], [n |-> U("Information"), v |-> 6], [n |-> U("All"), v |-> 7], [n |-> U("Null"), v |-> 8] >>],
  HostMethodIdentifier |-> [tn |-> U("System.Management.Automation.Remoting.RemoteHostMethodId"), flag |-> FALSE,
    m |-> << [n |-> U("GetName"), v |-> 1], [n |-> U("GetVersion"), v |-> 2], [n |-> U("GetInstanceId"), v |-> 3], [n |-> U("GetCurrentCulture"), v |-> 4], [n |-> U("GetCurrentUICulture"), v |-> 5], [n |-> U("SetShouldExit"), v |-> 6], [n |-> U("EnterNestedPrompt"), v |-> 7], [n |-> U("ExitNestedPrompt"), v |-> 8], [n |-> U("NotifyBeginApplication"), v |-> 9], [n |-> U("NotifyEndApplication"), v |-> 10], [n |-> U("ReadLine"), v |-> 11], [n |-> U("ReadLineAsSecureString"), v |-> 12], [n |-> U("Write1"), v |-> 13], [n |-> U("Write2"), v |-> 14], [n |-> U("WriteLine1"), v |-> 15], [n |-> U("WriteLine2"), v |-> 16], [n |-> U("WriteLine3"), v |-> 17], [n |-> U("WriteErrorLine"), v |-> 18], [n |-> U("WriteDebugLine"), v |-> 19], [n |-> U("WriteProgress"), v |-> 20], [n |-> U("WriteVerboseLine"), v |-> 21], [n |-> U("WriteWarningLine"), v |-> 22], [n |-> U("Prompt"), v |-> 23], [n |-> U("PromptForCredential1"), v |-> 24], [n |-> U("PromptForCredential2"), v |-> 25], [n |-> U("PromptForChoice"), v |-> 26], [n |-> U("GetForegroundColor"), v |-> 27], [n |-> U("SetForegroundColor"), v |-> 28], [n |-> U("GetBackgroundColor"), v |-> 29], [n |-> U("SetBackgroundColor"), v |-> 30], [n |-> U("GetCursorPosition"), v |-> 31], [n |-> U("SetCursorPosition"), v |-> 32], [n |-> U("GetWindowPosition"), v |-> 33], [n |-> U("SetWindowPosition"), v |-> 34], [n |-> U("GetCursorSize"), v |-> 35], [n |-> U("SetCursorSize"), v |-> 36], [n |-> U("GetBufferSize"), v |-> 37], [n |-> U("SetBufferSize"), v |-> 38], [n |-> U("GetWindowSize"), v |-> 39], [n |-> U("SetWindowSize"), v |-> 40], [n |-> U("GetWindowTitle"), v |-> 41], [n |-> U("SetWindowTitle"), v |-> 42], [n |-> U("GetMaxWindowSize"), v |-> 43], [n |-> U("GetMaxPhysicalWindowSize"), v |-> 44], [n |-> U("GetKeyAvailable"), v |-> 45], [n |-> U("ReadKey"), v |-> 46], [n |-> U("FlushInputBuffer"), v |-> 47], [n |-> U("SetBufferContents1"), v |-> 48], [n |-> U("SetBufferContents2"), v |-> 49], [n |-> U("GetBufferContents"), v |-> 50], [n |-> U("ScrollBufferContents"), v |-> 51], [n |-> U("PushRunspace"), v |-> 52], [n |-> U("PopRunspace"), v |-> 53], [n |-> U("GetIsRunspacePushed"), v |-> 54], [n |-> U("GetRunspace"), v |-> 55], [n |-> U("PromptForChoiceMultipleSelection"), v |-> 56] >>],
  ControlKeyStates |-> [tn |-> U("System.Management.Automation.Host.ControlKeyStates"), flag |-> TRUE,
    m |-> << [n |-> U("None"), v |-> 0], [n |-> U("RightAltPressed"), v |-> 1], [n |-> U("LeftAltPressed"), v |-> 2], [n |-> U("RightCtrlPressed"), v |-> 4], [n |-> U("LeftCtrlPressed"), v |-> 8], [n |-> U("ShiftPressed"), v |-> 16], [n |-> U("NumLockOn"), v |-> 32], [n |-> U("ScrollLockOn"), v |-> 64], [n |-> U("CapsLockOn"), v |-> 128], [n |-> U("EnhancedKey"), v |-> 256] >>],
  ReadKeyOptions |-> [tn |-> U("System.Management.Automation.Host.ReadKeyOptions"), flag |-> TRUE,
    m |-> << [n |-> U("AllowCtrlC"), v |-> 1], [n |-> U("NoEcho"), v |-> 2], [n |-> U("IncludeKeyDown"), v |-> 4], [n |-> U("IncludeKeyUp"), v |-> 8] >>] ]

\* objects with named adapted properties
BaseStructs == [
  ScriptPosition |-> [tn |-> << U("System.Management.Automation.Language.ScriptPosition"), U("System.Object") >>,
    p |-> << [n |-> U("File"), t |-> "PSString"], [n |-> U("LineNumber"), t |-> "PSInt"], [n |-> U("ColumnNumber"), t |-> "PSInt"], [n |-> U("Line"), t |-> "PSString"], [n |-> U("Offset"), t |-> "PSInt"] >>],
  ScriptExtent |-> [tn |-> << U("System.Management.Automation.Language.ScriptExtent"), U("System.Object") >>,
    p |-> << [n |-> U("File"), t |-> "PSString"], [n |-> U("StartScriptPosition"), t |-> "PSString"], [n |-> U("EndScriptPosition"), t |-> "PSString"], [n |-> U("StartLineNumber"), t |-> "PSInt"], [n |-> U("StartColumnNumber"), t |-> "PSInt"], [n |-> U("EndLineNumber"), t |-> "PSInt"], [n |-> U("EndColumnNumber"), t |-> "PSInt"], [n |-> U("StartOffset"), t |-> "PSInt"], [n |-> U("EndOffset"), t |-> "PSInt"], [n |-> U("Text"), t |-> "PSString"] >>],
  InvocationInfo |-> [tn |-> << U("System.Management.Automation.InvocationInfo"), U("System.Object") >>,
    p |-> << [n |-> U("BoundParameters"), t |-> "PSDict"], [n |-> U("CommandOrigin"), t |-> "CommandOrigin"], [n |-> U("DisplayScriptPosition"), t |-> "ScriptExtent"], [n |-> U("ExpectingInput"), t |-> "bool"], [n |-> U("HistoryId"), t |-> "PSInt64"], [n |-> U("InvocationName"), t |-> "PSString"], [n |-> U("Line"), t |-> "PSString"], [n |-> U("MyCommand"), t |-> ""], [n |-> U("OffsetInLine"), t |-> "PSInt"], [n |-> U("PipelineLength"), t |-> "PSInt"], [n |-> U("PipelinePosition"), t |-> "PSInt"], [n |-> U("PositionMessage"), t |-> "PSString"], [n |-> U("PSCommandPath"), t |-> "PSString"], [n |-> U("PSScriptRoot"), t |-> "PSString"], [n |-> U("ScriptLineNumber"), t |-> "PSInt"], [n |-> U("ScriptName"), t |-> "PSString"], [n |-> U("UnboundArguments"), t |-> "PSList"] >>],
  ErrorCategoryInfo |-> [tn |-> << U("System.Management.Automation.ErrorCategoryInfo"), U("System.Object") >>,
    p |-> << [n |-> U("Category"), t |-> "ErrorCategory"], [n |-> U("Activity"), t |-> "PSString"], [n |-> U("Reason"), t |-> "PSString"], [n |-> U("TargetName"), t |-> "PSString"], [n |-> U("TargetType"), t |-> "PSString"] >>],
  ErrorDetails |-> [tn |-> << U("System.Management.Automation.ErrorDetails"), U("System.Object") >>,
    p |-> << [n |-> U("Message"), t |-> "PSString"], [n |-> U("RecommendedAction"), t |-> "PSString"] >>],
  InformationRecord |-> [tn |-> << U("System.Management.Automation.InformationRecord"), U("System.Object") >>,
    p |-> << [n |-> U("MessageData"), t |-> ""], [n |-> U("Source"), t |-> "PSString"], [n |-> U("TimeGenerated"), t |-> "PSDateTime"], [n |-> U("Tags"), t |-> "PSList"], [n |-> U("User"), t |-> "PSString"], [n |-> U("Computer"), t |-> "PSString"], [n |-> U("ProcessId"), t |-> "PSUInt"], [n |-> U("NativeThreadId"), t |-> "PSUInt"], [n |-> U("ManagedThreadId"), t |-> "PSUInt"] >>],
  PSCredential |-> [tn |-> << U("System.Management.Automation.PSCredential"), U("System.Object") >>,
    p |-> << [n |-> U("UserName"), t |-> "PSString"], [n |-> U("Password"), t |-> "PSSecureString"] >>],
  NETException |-> [tn |-> << U("System.Exception"), U("System.Object") >>,
    p |-> << [n |-> U("Message"), t |-> "PSString"], [n |-> U("Data"), t |-> "PSDict"], [n |-> U("HelpLink"), t |-> "PSString"], [n |-> U("HResult"), t |-> "PSInt"], [n |-> U("InnerException"), t |-> ""], [n |-> U("Source"), t |-> "PSString"], [n |-> U("StackTrace"), t |-> "PSString"], [n |-> U("TargetSite"), t |-> "PSString"] >>] ]

\* types an application registers
AppNames == [
  AppDict |-> << U("My.Dict"), U("System.Collections.Hashtable"), U("System.Object") >>,
  AppList |-> << U("My.List"), U("System.Object") >>,
  AppStack |-> << U("My.Stack"), U("System.Object") >>,
  AppQueue |-> << U("My.Queue"), U("System.Object") >> ]
AppEnums == [
  AppEnum |-> [tn |-> U("My.Enum"), flag |-> FALSE, m |-> << [n |-> U("One"), v |-> 1], [n |-> U("Two"), v |-> 2], [n |-> U("Nine"), v |-> 9] >>],
  AppFlag |-> [tn |-> U("My.Flag"), flag |-> TRUE, m |-> << [n |-> U("A"), v |-> 1], [n |-> U("B"), v |-> 2], [n |-> U("C"), v |-> 4] >>] ]
AppStructs == [
  AppRec |-> [tn |-> << U("My.Type"), U("System.Object") >>,
    p |-> << [n |-> U("Id"), t |-> "PSInt"], [n |-> U("Label"), t |-> "PSString"], [n |-> U("Else"), t |-> ""] >>],
  AppSub |-> [tn |-> << U("My.Sub"), U("My.Type"), U("System.Object") >>,
    p |-> << [n |-> U("Own"), t |-> "PSString"], [n |-> U("Id"), t |-> "PSInt"], [n |-> U("Label"), t |-> "PSString"], [n |-> U("Else"), t |-> ""] >>] ]

TypeNames == IF AppTypes THEN AppNames @@ BaseNames ELSE BaseNames
Enums == IF AppTypes THEN AppEnums @@ BaseEnums ELSE BaseEnums
Structs == IF AppTypes THEN AppStructs @@ BaseStructs ELSE BaseStructs
=============================================================================
