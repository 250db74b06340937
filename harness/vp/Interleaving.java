package vp;

import java.io.InputStream;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/**
 * Loads the library and the harness anew, with a scheduling point before every field access and every call in the library's own code. The generated
 * lexer and parser and the initializers of classes are left as they are.
 */
final class Interleaving extends ClassLoader {
    private static final String LIBRARY = "com.github.sidhant92.";
    private static final String SKIP = "com.github.sidhant92.boolparser.parser.antlr.BooleanExpression";

    private static final java.util.regex.Pattern CHANGES = java.util.regex.Pattern.compile("put|set|add|append|insert|clear|remove|push|pop|poll|offer|compute|merge|replace|delete|getAndSet|sort");

    Interleaving() {
        super(Interleaving.class.getClassLoader());
    }

    @Override
    protected Class<?> loadClass(final String name, final boolean resolve) throws ClassNotFoundException {
        if (!name.startsWith("vp.") && !name.startsWith(LIBRARY)) {
            return super.loadClass(name, resolve);
        }
        synchronized (getClassLoadingLock(name)) {
            Class<?> c = findLoadedClass(name);
            if (c == null) {
                final byte[] bytes = bytes(name);
                c = defineClass(name, bytes, 0, bytes.length);
            }
            return c;
        }
    }

    private byte[] bytes(final String name) throws ClassNotFoundException {
        try (InputStream in = getParent().getResourceAsStream(name.replace('.', '/') + ".class")) {
            if (in == null) {
                throw new ClassNotFoundException(name);
            }
            final byte[] raw = in.readAllBytes();
            return name.startsWith(LIBRARY) && !name.startsWith(SKIP) ? instrument(raw) : raw;
        } catch (final java.io.IOException e) {
            throw new ClassNotFoundException(name, e);
        }
    }

    private static byte[] instrument(final byte[] raw) {
        final ClassReader reader = new ClassReader(raw);
        final ClassWriter writer = new ClassWriter(reader, 0);
        reader.accept(new ClassVisitor(Opcodes.ASM9, writer) {
            @Override
            public MethodVisitor visitMethod(final int access, final String name, final String descriptor, final String signature, final String[] exceptions) {
                final MethodVisitor next = super.visitMethod(access, name, descriptor, signature, exceptions);
                return next == null ? next : "<clinit>".equals(name) ? new Initializer(next) : new Points(next, !"<init>".equals(name));
            }
        }, 0);
        return writer.toByteArray();
    }

    /** the initializer of a class runs in one go: the others would wait for it to end */
    private static final class Initializer extends MethodVisitor {
        Initializer(final MethodVisitor next) {
            super(Opcodes.ASM9, next);
        }

        @Override
        public void visitCode() {
            super.visitCode();
            super.visitMethodInsn(Opcodes.INVOKESTATIC, "vp/Sched", "initializing", "()V", false);
        }

        @Override
        public void visitInsn(final int opcode) {
            if (opcode == Opcodes.RETURN) {
                super.visitMethodInsn(Opcodes.INVOKESTATIC, "vp/Sched", "initialized", "()V", false);
            }
            super.visitInsn(opcode);
        }
    }

    private static final class Points extends MethodVisitor {
        private final boolean shared;

        Points(final MethodVisitor next, final boolean shared) {
            super(Opcodes.ASM9, next);
            this.shared = shared;
        }

        /** what is written here may be what another thread works with: a good place to interrupt */
        private void wrote() {
            if (shared) {
                super.visitMethodInsn(Opcodes.INVOKESTATIC, "vp/Sched", "wrote", "()V", false);
            }
        }

        private void point() {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, "vp/Sched", "point", "()V", false);
        }

        @Override
        public void visitFieldInsn(final int opcode, final String owner, final String name, final String descriptor) {
            point();
            super.visitFieldInsn(opcode, owner, name, descriptor);
            if (opcode == Opcodes.PUTFIELD || opcode == Opcodes.PUTSTATIC) {
                wrote();
            }
        }

        @Override
        public void visitMethodInsn(final int opcode, final String owner, final String name, final String descriptor, final boolean isInterface) {
            point();
            super.visitMethodInsn(opcode, owner, name, descriptor, isInterface);
            if (owner.startsWith("java/") && opcode != Opcodes.INVOKESTATIC && CHANGES.matcher(name).lookingAt()) {
                wrote();
            }
        }

        @Override
        public void visitInsn(final int opcode) {
            if (opcode >= Opcodes.IRETURN && opcode <= Opcodes.RETURN || opcode >= Opcodes.IALOAD && opcode <= Opcodes.SALOAD
                    || opcode >= Opcodes.IASTORE && opcode <= Opcodes.SASTORE) {
                point();
            }
            super.visitInsn(opcode);
            if (opcode >= Opcodes.IASTORE && opcode <= Opcodes.SASTORE) {
                wrote();
            }
        }
    }
}
