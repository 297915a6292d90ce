-------------------------------- MODULE Names --------------------------------
(* Generated by tools/mknames.py. *)
EXTENDS Naturals, Sequences
NameTable == <<
  <<"Code", <<67, 111, 100, 101>>>>,
  <<"Deprecated", <<68, 101, 112, 114, 101, 99, 97, 116, 101, 100>>>>,
  <<"Synthetic", <<83, 121, 110, 116, 104, 101, 116, 105, 99>>>>,
  <<"Signature", <<83, 105, 103, 110, 97, 116, 117, 114, 101>>>>,
  <<"ConstantValue", <<67, 111, 110, 115, 116, 97, 110, 116, 86, 97, 108, 117, 101>>>>,
  <<"RuntimeVisibleAnnotations", <<82, 117, 110, 116, 105, 109, 101, 86, 105, 115, 105, 98, 108, 101, 65, 110, 110, 111, 116, 97, 116, 105, 111, 110, 115>>>>,
  <<"RuntimeInvisibleAnnotations", <<82, 117, 110, 116, 105, 109, 101, 73, 110, 118, 105, 115, 105, 98, 108, 101, 65, 110, 110, 111, 116, 97, 116, 105, 111, 110, 115>>>>,
  <<"RuntimeVisibleTypeAnnotations", <<82, 117, 110, 116, 105, 109, 101, 86, 105, 115, 105, 98, 108, 101, 84, 121, 112, 101, 65, 110, 110, 111, 116, 97, 116, 105, 111, 110, 115>>>>,
  <<"RuntimeInvisibleTypeAnnotations", <<82, 117, 110, 116, 105, 109, 101, 73, 110, 118, 105, 115, 105, 98, 108, 101, 84, 121, 112, 101, 65, 110, 110, 111, 116, 97, 116, 105, 111, 110, 115>>>>,
  <<"RuntimeVisibleParameterAnnotations", <<82, 117, 110, 116, 105, 109, 101, 86, 105, 115, 105, 98, 108, 101, 80, 97, 114, 97, 109, 101, 116, 101, 114, 65, 110, 110, 111, 116, 97, 116, 105, 111, 110, 115>>>>,
  <<"RuntimeInvisibleParameterAnnotations", <<82, 117, 110, 116, 105, 109, 101, 73, 110, 118, 105, 115, 105, 98, 108, 101, 80, 97, 114, 97, 109, 101, 116, 101, 114, 65, 110, 110, 111, 116, 97, 116, 105, 111, 110, 115>>>>,
  <<"Exceptions", <<69, 120, 99, 101, 112, 116, 105, 111, 110, 115>>>>,
  <<"AnnotationDefault", <<65, 110, 110, 111, 116, 97, 116, 105, 111, 110, 68, 101, 102, 97, 117, 108, 116>>>>,
  <<"MethodParameters", <<77, 101, 116, 104, 111, 100, 80, 97, 114, 97, 109, 101, 116, 101, 114, 115>>>>,
  <<"SourceFile", <<83, 111, 117, 114, 99, 101, 70, 105, 108, 101>>>>,
  <<"InnerClasses", <<73, 110, 110, 101, 114, 67, 108, 97, 115, 115, 101, 115>>>>,
  <<"EnclosingMethod", <<69, 110, 99, 108, 111, 115, 105, 110, 103, 77, 101, 116, 104, 111, 100>>>>,
  <<"SourceDebugExtension", <<83, 111, 117, 114, 99, 101, 68, 101, 98, 117, 103, 69, 120, 116, 101, 110, 115, 105, 111, 110>>>>,
  <<"BootstrapMethods", <<66, 111, 111, 116, 115, 116, 114, 97, 112, 77, 101, 116, 104, 111, 100, 115>>>>,
  <<"Module", <<77, 111, 100, 117, 108, 101>>>>,
  <<"ModulePackages", <<77, 111, 100, 117, 108, 101, 80, 97, 99, 107, 97, 103, 101, 115>>>>,
  <<"ModuleMainClass", <<77, 111, 100, 117, 108, 101, 77, 97, 105, 110, 67, 108, 97, 115, 115>>>>,
  <<"NestHost", <<78, 101, 115, 116, 72, 111, 115, 116>>>>,
  <<"NestMembers", <<78, 101, 115, 116, 77, 101, 109, 98, 101, 114, 115>>>>,
  <<"LineNumberTable", <<76, 105, 110, 101, 78, 117, 109, 98, 101, 114, 84, 97, 98, 108, 101>>>>,
  <<"LocalVariableTable", <<76, 111, 99, 97, 108, 86, 97, 114, 105, 97, 98, 108, 101, 84, 97, 98, 108, 101>>>>,
  <<"LocalVariableTypeTable", <<76, 111, 99, 97, 108, 86, 97, 114, 105, 97, 98, 108, 101, 84, 121, 112, 101, 84, 97, 98, 108, 101>>>>,
  <<"StackMapTable", <<83, 116, 97, 99, 107, 77, 97, 112, 84, 97, 98, 108, 101>>>>
>>
NameCps(n) == LET i == CHOOSE i \in 1..Len(NameTable) : NameTable[i][1] = n IN NameTable[i][2]
LitTable == <<
  <<"A", <<65>>>>,
  <<"B/C", <<66, 47, 67>>>>,
  <<"a/b/Xy", <<97, 47, 98, 47, 88, 121>>>>,
  <<"x", <<120>>>>,
  <<"yy", <<121, 121>>>>,
  <<"()V", <<40, 41, 86>>>>,
  <<"(I)I", <<40, 73, 41, 73>>>>,
  <<"([JLA;)LB/C;", <<40, 91, 74, 76, 65, 59, 41, 76, 66, 47, 67, 59>>>>,
  <<"I", <<73>>>>,
  <<"J", <<74>>>>,
  <<"D", <<68>>>>,
  <<"F", <<70>>>>,
  <<"LA;", <<76, 65, 59>>>>,
  <<"[I", <<91, 73>>>>,
  <<"[[LA;", <<91, 91, 76, 65, 59>>>>,
  <<"La/b/Xy;", <<76, 97, 47, 98, 47, 88, 121, 59>>>>,
  <<"V", <<86>>>>,
  <<"", <<>>>>,
  <<"L", <<76>>>>,
  <<"Lx", <<76, 120>>>>,
  <<"LA;x", <<76, 65, 59, 120>>>>,
  <<"[", <<91>>>>,
  <<"(", <<40>>>>,
  <<"()", <<40, 41>>>>,
  <<"(V)V", <<40, 86, 41, 86>>>>,
  <<"Q", <<81>>>>,
  <<"<init>", <<60, 105, 110, 105, 116, 62>>>>,
  <<"<clinit>", <<60, 99, 108, 105, 110, 105, 116, 62>>>>,
  <<"TT;", <<84, 84, 59>>>>,
  <<"LB<*>;", <<76, 66, 60, 42, 62, 59>>>>,
  <<"LB<+LA;-[ITT;>.C<LA;>;", <<76, 66, 60, 43, 76, 65, 59, 45, 91, 73, 84, 84, 59, 62, 46, 67, 60, 76, 65, 59, 62, 59>>>>,
  <<"La/b/C;", <<76, 97, 47, 98, 47, 67, 59>>>>,
  <<"LB<>;", <<76, 66, 60, 62, 59>>>>,
  <<"LB", <<76, 66>>>>,
  <<"<T:LA;>LA;", <<60, 84, 58, 76, 65, 59, 62, 76, 65, 59>>>>,
  <<"<T::LA;:LB;U:TT;>LA;LB<TT;>;", <<60, 84, 58, 58, 76, 65, 59, 58, 76, 66, 59, 85, 58, 84, 84, 59, 62, 76, 65, 59, 76, 66, 60, 84, 84, 59, 62, 59>>>>,
  <<"<T:>LA;", <<60, 84, 58, 62, 76, 65, 59>>>>,
  <<"LA;LB;", <<76, 65, 59, 76, 66, 59>>>>,
  <<"<>LA;", <<60, 62, 76, 65, 59>>>>,
  <<"<T:LA;>(TT;[IJ)TT;^TT;^LA;", <<60, 84, 58, 76, 65, 59, 62, 40, 84, 84, 59, 91, 73, 74, 41, 84, 84, 59, 94, 84, 84, 59, 94, 76, 65, 59>>>>,
  <<"<T:>()V^LA;", <<60, 84, 58, 62, 40, 41, 86, 94, 76, 65, 59>>>>,
  <<"()[TT;", <<40, 41, 91, 84, 84, 59>>>>,
  <<"()V^I", <<40, 41, 86, 94, 73>>>>,
  <<"(TT;", <<40, 84, 84, 59>>>>,
  <<"LA;)V", <<76, 65, 59, 41, 86>>>>,
  <<"TT", <<84, 84>>>>,
  <<"Foo", <<70, 111, 111>>>>,
  <<"Synthetic2", <<83, 121, 110, 116, 104, 101, 116, 105, 99, 50>>>>,
  <<"code", <<99, 111, 100, 101>>>>,
  <<"m", <<109>>>>,
  <<"1.2", <<49, 46, 50>>>>,
  <<"[D", <<91, 68>>>>,
  <<"[[[I", <<91, 91, 91, 73>>>>,
  <<"Z", <<90>>>>
>>
Lit(n) == LET i == CHOOSE i \in 1..Len(LitTable) : LitTable[i][1] = n IN LitTable[i][2]
==============================================================================
