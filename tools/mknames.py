"""Writes spec/Names.tla: the attribute names as code-point tuples (TLC cannot take strings apart)."""
import os
names = """Code Deprecated Synthetic Signature ConstantValue RuntimeVisibleAnnotations RuntimeInvisibleAnnotations
RuntimeVisibleTypeAnnotations RuntimeInvisibleTypeAnnotations RuntimeVisibleParameterAnnotations
RuntimeInvisibleParameterAnnotations Exceptions AnnotationDefault MethodParameters SourceFile InnerClasses EnclosingMethod
SourceDebugExtension BootstrapMethods Module ModulePackages ModuleMainClass NestHost NestMembers LineNumberTable
LocalVariableTable LocalVariableTypeTable StackMapTable""".split()
out = ["-------------------------------- MODULE Names --------------------------------",
       "(* Generated by tools/mknames.py. *)", "EXTENDS Naturals, Sequences"]
out.append("NameTable == <<")
out.append(",\n".join('  <<"%s", <<%s>>>>' % (n, ", ".join(str(ord(c)) for c in n)) for n in names))
out.append(">>")
out.append('NameCps(n) == LET i == CHOOSE i \\in 1..Len(NameTable) : NameTable[i][1] = n IN NameTable[i][2]')
lits = ["A", "B/C", "a/b/Xy", "x", "yy", "()V", "(I)I", "([JLA;)LB/C;", "I", "J", "D", "F", "LA;", "[I", "[[LA;", "La/b/Xy;", "V", "", "L", "Lx", "LA;x",
        "[", "(", "()", "(V)V", "Q", "<init>", "<clinit>", "TT;", "LB<*>;", "LB<+LA;-[ITT;>.C<LA;>;", "La/b/C;", "LB<>;", "LB",
        "<T:LA;>LA;", "<T::LA;:LB;U:TT;>LA;LB<TT;>;", "<T:>LA;", "LA;LB;", "<>LA;", "<T:LA;>(TT;[IJ)TT;^TT;^LA;", "<T:>()V^LA;",
        "()[TT;", "()V^I", "(TT;", "LA;)V", "TT", "Foo", "Synthetic2", "code", "m", "1.2", "[D", "[[[I", "Z"]
assert len(set(lits)) == len(lits)
out.append("LitTable == <<")
out.append(",\n".join('  <<"%s", <<%s>>>>' % (n, ", ".join(str(ord(c)) for c in n)) for n in lits))
out.append(">>")
out.append('Lit(n) == LET i == CHOOSE i \\in 1..Len(LitTable) : LitTable[i][1] = n IN LitTable[i][2]')
out.append("=" * 78)
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Names.tla")
open(p, "w").write("\n".join(out) + "\n")
